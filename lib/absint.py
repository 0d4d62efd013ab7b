"""Forward abstract interpretation over the resolved AST.

Domain: a bounded set of abstract stores (disjunctive completion).  One store maps
access paths to value terms (value numbering: constants, entry values, opaque call
results, pure functions of those) and keeps, per term, an interval / disequality
constraint (facts) gathered from branch conditions.  Loops are run to a fixpoint by
havocking every path the body can change; when more than CAP stores reach a point they
are joined (differing paths go to top).  No concrete input is ever chosen and no
solver is involved.
Small repo helpers are inlined (so extracting or merging a helper does not change a
verdict); other calls are summarised by a transitive modified-field/global set.
"""
import re
from hf import walk, Fn

TOP = ('top',)
INF = float('inf')

PURE_EXT = {'strlen', 'strcmp', 'strncmp', 'strcasecmp', 'memcmp', 'isdigit', 'isspace', 'isalpha', 'toupper',
            'tolower', 'std::min', 'std::max', 'std::make_pair', 'std::abs', 'strchr', 'strrchr', 'strstr',
            'std::numeric_limits', 'std::begin', 'std::end', 'isatty', 'fileno', 'atoi', 'strtol', 'std::distance'}

CONTAINER = re.compile(r'^(const )?std::(__cxx11::|__1::)?(vector|list|deque|map|set|basic_string|pair|multimap|stack|queue|unordered_map|unordered_set|multiset|shared_ptr|unique_ptr|tuple|forward_list|bitset|array)\b')
STR = re.compile(r'^(const )?(class )?std::(__cxx11::)?basic_string<')


def short(fn):
    return fn.rsplit('::', 1)[-1] if fn else ''


def K(c):
    return ('k', c)


def isk(v):
    return v[0] == 'k'


class St:
    __slots__ = ('mem', 'facts', 'tr', 'path', '_key', '_mt')

    def __init__(self, mem=None, facts=None, tr=None, path=()):
        self.mem = mem or {}
        self.facts = facts or {}
        self.tr = tr or {}
        self.path = path
        self._key = None
        self._mt = None

    def copy(self):
        return St(dict(self.mem), dict(self.facts), dict(self.tr), self.path)

    def key(self):
        if self._key is None:
            self._key = (frozenset(self.mem.items()), frozenset(self.facts.items()), frozenset(self.tr.items()))
        return self._key

    def mtkey(self):
        if self._mt is None:
            self._mt = (frozenset(self.mem.items()), frozenset(self.tr.items()))
        return self._mt

    def trkey(self):
        return frozenset(self.tr.items())

    def with_tr(self, **kw):
        s = self.copy()
        s.tr.update(kw)
        return s

    def where(self):
        return ' -> '.join('%s%s' % (l, '+' if t else '-') for l, t in self.path[-14:])


def contains(term, sub):
    st = [term]
    while st:
        x = st.pop()
        if x == sub:
            return True
        if isinstance(x, tuple):
            st.extend(y for y in x if isinstance(y, (tuple, frozenset)))
        elif isinstance(x, frozenset):
            st.extend(x)
    return False


def subst(term, a, b):
    if term == a:
        return b
    if isinstance(term, tuple):
        n = tuple(subst(x, a, b) if isinstance(x, (tuple, frozenset)) else x for x in term)
        return n if n != term else term
    if isinstance(term, frozenset):
        return frozenset(subst(x, a, b) for x in term)
    return term


def depth(term):
    if isinstance(term, tuple):
        m = 0
        for x in term:
            if isinstance(x, (tuple, frozenset)):
                d = depth(x)
                if d > m:
                    m = d
        return m + 1
    if isinstance(term, frozenset):
        return max([depth(x) for x in term] or [0]) + 1
    return 0


# ---- linear terms: ('+', base, c) ------------------------------------------------
def add(v, c):
    if isk(v) and type(v[1]) in (int, bool, float):
        return K(v[1] + c)
    if v[0] == '+':
        n = v[2] + c
        return v[1] if n == 0 else ('+', v[1], n)
    return v if c == 0 else ('+', v, c)


def lin(v):
    if v[0] == '+':
        return v[1], v[2]
    return v, 0


class Hooks:
    """override in checks"""
    count = 0

    def call(self, A, s, node, fn, recv, args):
        return None

    def store(self, A, s, loc, val, node):
        return None

    def load(self, A, s, loc, node):
        return None

    def inline(self, A, fn):
        return fn.size <= A.inline_size and len(A.stack) < A.inline_depth

    def may_throw(self, A, s, node, fn):
        """None or an exception type name"""
        return None

    def throw(self, A, s, node, typ, val):
        return None

    def cond(self, A, s, node, truth):
        return None

    def delete(self, A, s, node, val):
        return None

    def sticky(self, s):
        """facts that keep otherwise equal states apart"""
        return ()

    def back(self, A, n, h, backs):
        """the first round of a loop entered in state h, in which count was increased, ends in one of backs"""
        return None


class A:
    CAP = 48

    def __init__(self, prog, hooks=None, inline_size=100, inline_depth=3):
        self.peel = False
        self.mark_joins = False
        self.P = prog
        self.h = hooks or Hooks()
        self._stack = ()          # call-site nids
        self._ctx = {}
        self.ctx = 0
        self.fstack = []         # functions being analysed
        self.loop = 0
        self.inline_size = inline_size
        self.inline_depth = inline_depth
        self.throws = [[]]       # stack of collectors of (state, type)
        self.steps = 0
        self.max_steps = 2000000
        self._mods = {}
        self.merged = 0

    @property
    def stack(self):
        return self._stack

    @stack.setter
    def stack(self, v):
        self._stack = v
        self.ctx = self._ctx.setdefault(v, len(self._ctx))

    # ------------------------------------------------------------------ locations
    def base_content(self, s, loc):
        v = s.mem.get(loc)
        if v is not None:
            return v
        return self.default(s, loc)

    def default(self, s, loc):
        k = loc[0]
        if k == 'f':
            return self.fldof(self.base_content(s, loc[1]), loc[2], loc[1])
        if k == 'i':
            return self.elt(self.base_content(s, loc[1]), loc[2], s)
        return ('in', loc)

    def fldof(self, v, n, loc=None):
        if v[0] == 'agg':
            for kn, kv in v[2]:
                if kn == n:
                    return kv
            return self.fldof(v[1], n)
        if v[0] == 'in':
            return ('in', ('f', v[1], n))
        if v[0] == 'pair' and n in ('first', 'second'):
            return v[1] if n == 'first' else v[2]
        if v[0] == 'p':
            return ('p', ('fld', v[1], n))
        return ('fld', v, n)

    def elt(self, v, idx, s=None):
        while v[0] in ('st', 'ers'):
            if v[2] == idx and v[0] == 'st':
                return v[3]
            if isk(v[2]) and isk(idx) and v[2] != idx:
                v = v[1]
                continue
            return ('elt', v, idx)
        if v[0] == 'in':
            return ('in', ('i', v[1], idx))
        return ('elt', v, idx)

    def mkst(self, c, idx, val):
        if c[0] == 'st' and c[2] == idx:
            return self.mkst(c[1], idx, val)
        if self.elt(c, idx) == val:
            return c
        r = ('st', c, idx, val)
        return r

    def content(self, s, loc):
        b = self.base_content(s, loc)
        kids = []
        for l in s.mem:
            if l[0] == 'f' and l[1] == loc:
                kids.append(l)
        if not kids:
            # grandchildren?
            gk = [l for l in s.mem if self.under(l, loc) and l != loc]
            if not gk:
                return b
        names = set()
        for l in s.mem:
            if l != loc and self.under(l, loc):
                x = l
                while x[1] != loc:
                    x = x[1]
                names.add(x[2])
        upd = []
        for n in sorted(names):
            cv = self.content(s, ('f', loc, n))
            if cv != self.fldof(b, n):
                upd.append((n, cv))
        if b[0] == 'agg':
            have = {n for n, _ in upd}
            upd += [(n, v) for n, v in b[2] if n not in names]
            b = b[1]
            upd = [(n, v) for n, v in sorted(upd) if v != self.fldof(b, n)]
        if not upd:
            return b
        return ('agg', b, tuple(upd))

    def under(self, l, anc):
        while True:
            if l == anc:
                return True
            if l[0] in ('f', 'i'):
                l = l[1]
            else:
                return False

    def load(self, s, loc, node=None):
        r = self.h.load(self, s, loc, node)
        if r is not None:
            return r
        v = self.content(s, loc)
        return self.simp(s, v)

    def simp(self, s, v):
        f = s.facts.get(v)
        if f is not None:
            if f[3] is not None:
                return K(f[3])
            if f[0] == f[1]:
                return K(int(f[0]))
        if v[0] == '+':
            b = self.simp(s, v[1])
            if isk(b):
                return add(b, v[2])
        return v

    def store(self, s, loc, val, node=None):
        """returns new state"""
        self.h.store(self, s, loc, val, node)
        return self.rawstore(s, loc, val)

    def rawstore(self, s, loc, val):
        if depth(val) > 12:
            val = ('deep', node_id(val))
        # element stores are folded into the container's content
        x = loc
        chain = []
        while x[0] in ('f', 'i'):
            if x[0] == 'i':
                # rebuild content of the element
                if chain:
                    ec = self.content(s, x)
                    val = self.updpath(ec, list(reversed(chain)), val)
                base = x[1]
                bc = self.content(s, base)
                return self.rawstore(s, base, self.mkst(bc, x[2], val))
            chain.append(x[2])
            x = x[1]
        n = s.copy()
        for l in list(n.mem):
            if l != loc and self.under(l, loc):
                del n.mem[l]
        n.mem.pop(loc, None)
        if self.default(n, loc) != val:
            n.mem[loc] = val
        return n

    def updpath(self, c, names, val):
        n = names[0]
        nv = val if len(names) == 1 else self.updpath(self.fldof(c, n), names[1:], val)
        if c[0] == 'agg':
            kids = tuple(sorted([(a, b) for a, b in c[2] if a != n] + [(n, nv)]))
            return ('agg', c[1], kids)
        if self.fldof(c, n) == nv:
            return c
        return ('agg', c, ((n, nv),))

    def fresh(self, s, term):
        """(re)introduce an opaque term; earlier incarnations are renamed"""
        if not self.loop:
            return s, term
        hit = any(contains(v, term) for v in s.mem.values()) or any(contains(k, term) for k in s.facts) \
            or any(contains(v, term) for v in s.tr.values() if isinstance(v, tuple))
        if not hit:
            return s, term
        n = s.copy()
        old = ('p', term)
        n.mem = {subst(k, term, old): subst(v, term, old) for k, v in n.mem.items()}
        n.facts = {k: v for k, v in n.facts.items() if not contains(k, term) and not contains(k, old)}
        n.tr = {k: (subst(v, term, old) if isinstance(v, tuple) else v) for k, v in n.tr.items()}
        return n, term

    def opaque(self, s, node, tag='r'):
        return self.fresh(s, (tag, node['nid'], self.ctx))

    # ------------------------------------------------------------------ facts
    def constraint(self, s, t):
        b, c = lin(t)
        if isk(t) and type(t[1]) in (int, bool):
            return (t[1], t[1], frozenset(), None)
        f = s.facts.get(b)
        if f is None:
            lo = 0 if b[0] in ('sz', 'has') else -INF
            hi = 1 if b[0] == 'has' else INF
            if b[0] == 'neg':
                g = self.constraint(s, b[1])
                lo, hi = -g[1], -g[0]
            f = (lo, hi, frozenset(), None)
        if c:
            return (f[0] + c, f[1] + c, frozenset(x + c for x in f[2] if isinstance(x, (int, float))), None)
        return f

    def setc(self, s, t, lo=None, hi=None, ne=None, eq=None):
        b, c = lin(t)
        f = self.constraint(s, b)
        nlo, nhi, nne, neq = f
        if lo is not None:
            nlo = max(nlo, lo - c)
        if hi is not None:
            nhi = min(nhi, hi - c)
        if ne is not None:
            nne = nne | {ne - c if c and isinstance(ne, (int, float)) else ne}
        if eq is not None:
            if neq is not None and neq != eq:
                return None
            neq = eq
        if neq is not None and neq in nne:
            return None
        while nlo in nne and nlo <= nhi:
            nlo += 1
        while nhi in nne and nlo <= nhi:
            nhi -= 1
        if nlo > nhi:
            return None
        n = s.copy()
        n.facts[b] = (nlo, nhi, nne, neq)
        return n

    def decide(self, s, v):
        """True/False/None"""
        k = v[0]
        if k == 'k':
            return bool(v[1])
        if k == 'not':
            r = self.decide(s, v[1])
            return None if r is None else (not r)
        if k == 'addr' or k == 'new':
            return True
        if k == '==':
            a, b = self.simp(s, v[1]), self.simp(s, v[2])
            if a == b and not contains(a, 'p') and a[0] not in ('p', 'top'):
                return True
            if isk(a) and isk(b):
                return a[1] == b[1]
            if a[0] == 'addr' and b == K(0) or b[0] == 'addr' and a == K(0):
                return False
            if a[0] == 'addr' and b[0] == 'addr' and a != b:
                return False
            ab, ac = lin(a)
            bb, bc = lin(b)
            if ab == bb and ac != bc and not isk(ab):
                return False
            f = s.facts.get(v)
            if f and f[0] == f[1]:
                return bool(f[0])
            ca, cb = self.constraint(s, a), self.constraint(s, b)
            if isk(b) and isinstance(b[1], str):
                if ca[3] is not None:
                    return ca[3] == b[1]
                if b[1] in ca[2]:
                    return False
                return None
            if isk(a) and isinstance(a[1], str):
                if cb[3] is not None:
                    return cb[3] == a[1]
                if a[1] in cb[2]:
                    return False
                return None
            if ca[0] > cb[1] or cb[0] > ca[1]:
                return False
            if isk(b) and b[1] in ca[2]:
                return False
            if isk(a) and a[1] in cb[2]:
                return False
            return None
        if k == '<':
            a, b = self.simp(s, v[1]), self.simp(s, v[2])
            if isk(a) and isk(b):
                try:
                    return a[1] < b[1]
                except TypeError:
                    return None
            ab, ac = lin(a)
            bb, bc = lin(b)
            if ab == bb and ab[0] != 'p':
                return ac < bc
            f = s.facts.get(v)
            if f and f[0] == f[1]:
                return bool(f[0])
            ca, cb = self.constraint(s, a), self.constraint(s, b)
            if ca[1] < cb[0]:
                return True
            if ca[0] >= cb[1]:
                return False
            return None
        if k == 'and':
            a, b = self.decide(s, v[1]), self.decide(s, v[2])
            if a is False or b is False:
                return False
            if a and b:
                return True
            return None
        if k == 'or':
            a, b = self.decide(s, v[1]), self.decide(s, v[2])
            if a or b:
                return True
            if a is False and b is False:
                return False
            return None
        c = self.constraint(s, v)
        if c[3] is not None:
            return True
        if c[0] == c[1] == 0:
            return False
        if c[0] > 0 or c[1] < 0 or 0 in c[2]:
            return True
        return None

    def assume(self, s, v, truth):
        """list of states (usually 0 or 1)"""
        d = self.decide(s, v)
        if d is not None:
            return [s] if d == truth else []
        k = v[0]
        if k == 'not':
            return self.assume(s, v[1], not truth)
        if k in ('and', 'or'):
            conj = (k == 'and') == truth
            if conj:
                out = []
                for s1 in self.assume(s, v[1], truth):
                    out += self.assume(s1, v[2], truth)
                return out
            out = list(self.assume(s, v[1], truth))
            for s1 in self.assume(s, v[1], not truth):
                out += self.assume(s1, v[2], truth)
            return out
        if k == '==':
            a, b = self.simp(s, v[1]), self.simp(s, v[2])
            if isk(a) and not isk(b):
                a, b = b, a
            if a[0] == 'scmp' and b == K(0):
                return self.assume(s, mkeq(a[1], a[2]), truth)
            if isk(b):
                c = b[1]
                if isinstance(c, str):
                    n = self.setc(s, a, eq=c) if truth else self.setc(s, a, ne=c)
                else:
                    if a[0] in ('==', '<', 'not', 'and', 'or') and c in (0, 1):
                        return self.assume(s, a, truth == bool(c))
                    n = self.setc(s, a, lo=c, hi=c) if truth else self.setc(s, a, ne=c)
                return [n] if n else []
            n = self.setc(s, v, lo=int(truth), hi=int(truth))
            if n and truth:
                ca, cb = self.constraint(n, a), self.constraint(n, b)
                for (x, o) in ((a, cb), (b, ca)):
                    m = self.setc(n, x, lo=o[0] if o[0] > -INF else None, hi=o[1] if o[1] < INF else None)
                    if m is None:
                        return []
                    n = m
            return [n] if n else []
        if k == '<':
            a, b = self.simp(s, v[1]), self.simp(s, v[2])
            n = s
            if isk(b) and type(b[1]) in (int, bool, float):
                n = self.setc(s, a, hi=b[1] - 1) if truth else self.setc(s, a, lo=b[1])
                return [n] if n else []
            if isk(a) and type(a[1]) in (int, bool, float):
                n = self.setc(s, b, lo=a[1] + 1) if truth else self.setc(s, b, hi=a[1])
                return [n] if n else []
            n = self.setc(s, v, lo=int(truth), hi=int(truth))
            if n:
                ca, cb = self.constraint(n, a), self.constraint(n, b)
                if truth:
                    if cb[1] < INF:
                        n = self.setc(n, a, hi=cb[1] - 1)
                    if n and ca[0] > -INF:
                        n = self.setc(n, b, lo=ca[0] + 1)
                else:
                    if ca[1] < INF:
                        n = self.setc(n, b, hi=ca[1])
                    if n and cb[0] > -INF:
                        n = self.setc(n, a, lo=cb[0])
            return [n] if n else []
        if truth:
            n = self.setc(s, v, ne=0)
        else:
            n = self.setc(s, v, lo=0, hi=0)
        return [n] if n else []

    # ------------------------------------------------------------------ mod sets
    def mods(self, u):
        """transitive (globals, qualified fields) written by function u; None member '*' = unknown"""
        if u in self._mods:
            return self._mods[u]
        # iterative closure over call graph
        order = []
        seen = set()
        st = [u]
        edges = {}
        direct = {}
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            fs = self.P.callees(x, virt=True)
            d = set()
            es = set()
            for f in fs:
                roots = [f.body] + [i['e'] for i in (f.inits or [])]
                for i in (f.inits or []):
                    if i.get('f'):
                        pass
                read = set()          # v[i]-> only reads the pointer v[i]
                for r in roots:
                    for n in walk(r):
                        k = n.get('k')
                        for y in [n.get('o')] if k == 'call' else [n.get('b')] if k == 'mem' else [n['a'], n['b']] if k == 'bin' else ():
                            while isinstance(y, dict) and (y.get('k') == 'cast' or y.get('k') == 'un' and y.get('op') == '*'):
                                y = y['e']
                            if isinstance(y, dict) and y.get('k') == 'call' and y.get('op') == '[]' and (y.get('t') or '').rstrip('& ').endswith('*') and \
                                    'vector' in (y.get('fn') or ''):
                                read.add(id(y))
                        if k == 'asg':
                            d |= wrtargets(n['a'])
                        elif k == 'un' and n['op'] in ('++', '--', 'p++', 'p--'):
                            d |= wrtargets(n['e'])
                        elif k in ('call', 'ctor'):
                            if n.get('u'):
                                es.add(n['u'])
                            if n.get('o') is not None and not n.get('cm') and n.get('u') not in self.P.fns and id(n) not in read:
                                d |= wrtargets(n['o'])
                            pm = n.get('pm') or ''
                            for i, a in enumerate(n.get('args', [])):
                                if i < len(pm) and pm[i] in 'mp' and not (n.get('fn') in ('std::pair', 'std::make_pair')):
                                    d |= wrtargets(a)
            direct[x] = d
            edges[x] = es
            for e in es:
                if e in self.P.fns or e in self.P.overriders:
                    st.append(e)
        tot = set()
        for x in seen:
            tot |= direct[x]
        self._mods[u] = tot
        return tot

    def pure_repo(self, u):
        m = self.mods(u)
        return not any(True for x in m)

    # ------------------------------------------------------------------ expressions
    def evs(self, e, states):
        out = []
        for s in states:
            out += self.ev(e, s)
        return out

    def is_class(self, t):
        t = t.replace('const ', '')
        return '::' in t and not t.endswith('*') and not t.endswith('&') or t in self.P.recs

    def lvk(self, e):
        return e['k'] in ('ref', 'mem', 'idx', 'un', 'call', 'this', 'cond', 'asg', 'cast', 'opq', 'bin', 'ctor', 'stmtexpr',
                          'defarg', 'definit', 'str')

    def deref(self, s, v):
        if v[0] == 'addr':
            return v[1]
        return ('d', v)

    def refloc(self, s, loc):
        v = s.mem.get(loc)
        if v is not None and v[0] == 'refto':
            return v[1]
        return loc

    def lv(self, e, s):
        """[(state, loc)]"""
        k = e['k']
        if k == 'ref':
            dk = e.get('dk')
            if dk in ('fn', 'enum'):
                return [(s, ('fnref', e.get('u') or e['n']))]
            return [(s, self.refloc(s, ('v', e['id'])))]
        if k == 'this':
            t = s.mem.get(('thisptr',))
            return [(s, t[1] if t else ('T',))]   # object itself (callers treat 'this' specially)
        if k == 'mem':
            if e.get('dk') == 'sfield':
                return [(s, ('v', 'g:' + e['n']))]
            out = []
            b = e['b']
            if e.get('a') and b['k'] != 'this':
                for s1, v in self.ev(b, s):
                    out.append((s1, self.refloc(s1, ('f', self.deref(s1, v), e['m']))))
            else:
                for s1, l in self.lv(b, s):
                    out.append((s1, self.refloc(s1, ('f', l, e['m']))))
            return out
        if k == 'un':
            op = e['op']
            if op == '*':
                return [(s1, self.deref(s1, v)) for s1, v in self.ev(e['e'], s)]
            if op in ('++', '--'):
                out = []
                for s1, v in self.ev(e, s):
                    out += self.lv(e['e'], s1)
                return out
        if k == 'asg':
            out = []
            for s1, v in self.ev(e, s):
                out += self.lv_noeff(e['a'], s1)
            return out
        if k == 'idx':
            out = []
            for s1, bl in self.arrbase(e['a'], s):
                for s2, iv in self.ev(e['b'], s1):
                    out.append((s2, ('i', bl, iv)))
            return out
        if k == 'cast' or k == 'opq' or k == 'defarg' or k == 'definit':
            if e.get('e') is not None:
                if k == 'cast' and self.is_class(e['t']) and e['e']['k'] in ('ctor',):
                    pass
                return self.lv(e['e'], s)
        if k == 'cond':
            ts, fs = self.cond(e['c'], s)
            out = []
            for x in ts:
                out += self.lv(e['a'], x)
            for x in fs:
                out += self.lv(e['b'], x)
            return out
        if k == 'bin' and e['op'] == ',':
            out = []
            for s1, _ in self.ev(e['a'], s):
                out += self.lv(e['b'], s1)
            return out
        if k == 'call':
            out = []
            for s1, v in self.ev(e, s, want_ref=True):
                if v[0] == 'refto':
                    out.append((s1, v[1]))
                else:
                    tl = ('tmp', e['nid'], self.ctx)
                    out.append((self.rawstore(s1, tl, v), tl))
            return out
        # temporaries
        out = []
        for s1, v in self.ev(e, s):
            tl = ('tmp', e['nid'], self.ctx)
            out.append((self.rawstore(s1, tl, v), tl))
        return out

    def lv_noeff(self, e, s):
        return self.lv(e, s)

    def arrbase(self, e, s):
        """base location for a[i]: array variable -> its loc; pointer value -> deref'd loc"""
        t = e.get('t', '')
        if t.endswith(']'):
            return self.lv(e, s)
        out = []
        for s1, v in self.ev(e, s):
            if v[0] == 'addr':
                l = v[1]
                out.append((s1, l))
            else:
                out.append((s1, ('d', v)))
        return out

    def ev(self, e, s, want_ref=False):
        """[(state, value)]"""
        self.steps += 1
        if self.steps > self.max_steps:
            raise RuntimeError('analysis budget exceeded in %s' % (self.fstack[0].q if self.fstack else '?'))
        k = e['k']
        v = e.get('v')
        if k in ('int', 'chr', 'bool', 'flt'):
            return [(s, K(v))]
        if k == 'str':
            return [(s, ('k', v))]
        if k == 'null' or k == 'zero':
            if k == 'zero' and self.is_class(e['t']):
                return [(s, ('zero', e['t']))]
            return [(s, K(0))]
        if k == 'sizeof':
            return [(s, K(v) if v is not None else TOP)]
        if k == 'this':
            t = s.mem.get(('thisptr',))
            return [(s, ('addr', t[1] if t else ('T',)))]
        if k == 'ref':
            if v is not None:
                return [(s, K(v))]
            if e.get('dk') == 'fn':
                return [(s, ('fnref', e['u']))]
            loc = self.refloc(s, ('v', e['id']))
            if e['t'].endswith(']'):
                return [(s, ('addr', loc))]
            return [(s, self.load(s, loc, e))]
        if k == 'mem':
            if e.get('dk') == 'sfield' and v is not None:
                return [(s, K(v))]
            if e.get('dk') == 'fn':
                return [(s, ('fnref', e['u']))]
            out = []
            for s1, loc in self.lv(e, s):
                if e['t'].endswith(']'):
                    out.append((s1, ('addr', loc)))
                else:
                    out.append((s1, self.load(s1, loc, e)))
            return out
        if k == 'idx':
            return [(s1, self.load(s1, l, e)) for s1, l in self.lv(e, s)]
        if k == 'un':
            return self.ev_un(e, s)
        if k == 'bin':
            return self.ev_bin(e, s)
        if k == 'asg':
            return self.ev_asg(e, s)
        if k == 'cond':
            ts, fs = self.cond(e['c'], s)
            return self.evs(e['a'], ts) + self.evs(e['b'], fs)
        if k == 'cast':
            t = e['t']
            if e.get('void'):
                return [(s1, TOP) for s1, _ in self.ev(e['e'], s)]
            if v is not None and e['e']['k'] not in ('call', 'asg'):
                return [(s, K(v))]
            out = []
            for s1, x in self.ev(e['e'], s, want_ref):
                if t == 'bool' and not (isk(x) or x[0] in ('==', '<', 'not', 'and', 'or')):
                    x = ('not', mkeq(x, K(0)))
                elif isk(x) and isinstance(x[1], int) and not isinstance(x[1], bool):
                    x = K(wrap(x[1], t))
                elif t in ('unsigned char', 'char', 'signed char') and not isk(x) and x[0] not in ('==', '<', 'not'):
                    x = ('cst', t, x)
                out.append((s1, x))
            return out
        if k in ('defarg', 'definit', 'opq', 'silist'):
            if e.get('e') is None:
                return [(s, TOP)]
            return self.ev(e['e'], s, want_ref)
        if k == 'call':
            return self.ev_call(e, s, want_ref)
        if k == 'ctor':
            return self.ev_ctor(e, s)
        if k == 'new':
            return self.ev_new(e, s)
        if k == 'delete':
            out = []
            for s1, v1 in self.ev(e['e'], s):
                r = self.h.delete(self, s1, e, v1)
                out.append((r if r is not None else s1, TOP))
            return out
        if k == 'throw':
            self.do_throw(e, s)
            return []
        if k == 'lambda':
            return [(s, ('lambda', e['u']))]
        if k == 'list':
            cur = [(s, ())]
            for x in e['e']:
                nxt = []
                for s1, vs in cur:
                    for s2, v2 in self.ev(x, s1):
                        nxt.append((s2, vs + (v2,)))
                cur = nxt
            rec = self.P.recs.get(e['t'].replace('const ', ''))
            if rec and len(rec['fields']) == len(e['e']):
                return [(s1, ('agg', ('zero', e['t']), tuple(sorted((f['n'], v) for f, v in zip(rec['fields'], vs)))))
                        for s1, vs in cur]
            return [(s1, ('list',) + vs) for s1, vs in cur]
        if k == 'stmtexpr':
            o = self.stmt(e['s'], [s])
            self.pass_out(o)
            return [(x, TOP) for x in o.get('norm', [])]
        if k == 'x':
            cur = [s]
            for c in e.get('ch', []):
                cur = [s1 for s1, _ in self.evs(c, cur)]
            if v is not None:
                return [(x, K(v)) for x in cur]
            return [(x,) + (self.opaque(x, e)[1],) for x in cur]
        raise RuntimeError('expr kind ' + k)

    def pass_out(self, o):
        pass

    def do_throw(self, e, s):
        if e.get('e') is None:
            self.throws[-1].append((s, '<rethrow>'))
            return
        t = e['e']['t'].replace('const ', '')
        for s1, v in self.ev(e['e'], s):
            r = self.h.throw(self, s1, e, t, v)
            self.throws[-1].append((r if r is not None else s1, t))

    def ev_un(self, e, s):
        op = e['op']
        if op == '&':
            x = e['e']
            if x['k'] == 'ref' and x.get('dk') == 'fn':
                return [(s, ('fnref', x['u']))]
            out = []
            for s1, l in self.lv(x, s):
                if l[0] == 'd':
                    out.append((s1, l[1]))
                else:
                    out.append((s1, ('addr', l)))
            return out
        if op == '*':
            return [(s1, self.load(s1, l, e)) for s1, l in self.lv(e, s)]
        if op in ('++', '--', 'p++', 'p--'):
            d = 1 if '+' in op else -1
            out = []
            for s1, l in self.lv(e['e'], s):
                old = self.content(s1, l)
                old = self.simp(s1, old)
                nv = add(old, d) if old[0] != 'addr' else ('padd', old, d)
                if old[0] == 'padd' and old[2] + d == 0:
                    nv = old[1]
                elif old[0] == 'padd':
                    nv = ('padd', old[1], old[2] + d)
                s2 = self.store(s1, l, nv, e)
                out.append((s2, nv if not op.startswith('p') else old))
            return out
        if op == '!':
            return [(s1, mknot(v)) for s1, v in self.ev(e['e'], s)]
        if op == '-':
            return [(s1, mkneg(v)) for s1, v in self.ev(e['e'], s)]
        if op == '~':
            return [(s1, ('~', v)) for s1, v in self.ev(e['e'], s)]
        return self.ev(e['e'], s)

    def ev_bin(self, e, s):
        op = e['op']
        if op in ('&&', '||'):
            if e.get('v') is not None:
                return [(s, K(e['v']))]
            ts, fs = self.cond(e, s)
            return [(x, K(1)) for x in ts] + [(x, K(0)) for x in fs]
        if op == ',':
            out = []
            for s1, _ in self.ev(e['a'], s):
                out += self.ev(e['b'], s1)
            return out
        if e.get('v') is not None:
            return [(s, K(e['v']))]
        out = []
        for s1, a in self.ev(e['a'], s):
            for s2, b in self.ev(e['b'], s1):
                out.append((s2, self.binop(s2, op, a, b)))
        return out

    def binop(self, s, op, a, b):
        a, b = self.simp(s, a), self.simp(s, b)
        if op == '==':
            return self.mkcmp(s, a, b)
        if op == '!=':
            return mknot(self.mkcmp(s, a, b))
        if op == '<':
            return mklt(a, b)
        if op == '>':
            return mklt(b, a)
        if op == '<=':
            return mknot(mklt(b, a))
        if op == '>=':
            return mknot(mklt(a, b))
        num = lambda x: isk(x) and not isinstance(x[1], str)
        if op == '+':
            if num(b):
                return self.padd(a, b[1])
            if num(a):
                return self.padd(b, a[1])
        if op == '-':
            if num(b):
                return self.padd(a, -b[1])
            (ab, ac), (bb, bc) = lin(a), lin(b)
            if ab == bb and ab[0] != 'p':
                return K(ac - bc)
            if not num(a) and (ac or bc) and type(ac) is int and type(bc) is int:
                return add(('op', '-', ab, bb), ac - bc)
        if op == '+' and not num(a) and not num(b):
            (ab, ac), (bb, bc) = lin(a), lin(b)
            if (ac or bc) and type(ac) is int and type(bc) is int:
                return add(('op', '+', ab, bb), ac + bc)
        if op == '*' and (a == K(-1) or b == K(-1)):
            return mkneg(b if a == K(-1) else a)
        if num(a) and num(b):
            x, y = a[1], b[1]
            try:
                r = {'*': lambda: x * y, '/': lambda: int(x / y) if isinstance(x, int) and isinstance(y, int) else x / y,
                     '%': lambda: x - y * int(x / y), '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y,
                     '<<': lambda: x << y, '>>': lambda: x >> y}[op]()
                return K(r)
            except Exception:
                pass
        return ('op', op, a, b)

    def padd(self, a, c):
        if a[0] == 'addr':
            return a if c == 0 else ('padd', a, c)
        if a[0] == 'padd':
            return a[1] if a[2] + c == 0 else ('padd', a[1], a[2] + c)
        if isk(a) and isinstance(a[1], str):
            return ('padd', a, c)
        return add(a, c)

    def mkcmp(self, s, a, b):
        # contains idioms
        for x, y in ((a, b), (b, a)):
            if x[0] == 'find' and y[0] == 'end' and x[1] == y[1]:
                return mkeq(self.has(s, x[1], x[2]), K(0))
            if x[0] == 'sfind' and isk(y) and y[1] in (-1, 18446744073709551615, '18446744073709551615'):
                return mkeq(('shas',) + x[1:], K(0))
            if x[0] == 'begin' and y[0] == 'end' and x[1] == y[1]:
                return mkeq(self.size(s, x[1]), K(0))
        return mkeq(a, b)

    def ev_asg(self, e, s):
        op = e['op']
        out = []
        if op == '=':
            for s1, v in self.ev(e['b'], s):
                for s2, l in self.lv(e['a'], s1):
                    out.append((self.store(s2, l, v, e), v))
            return out
        for s1, v in self.ev(e['b'], s):
            for s2, l in self.lv(e['a'], s1):
                old = self.simp(s2, self.content(s2, l))
                nv = self.binop(s2, op[:-1], old, v)
                out.append((self.store(s2, l, nv, e), nv))
        return out

    # ---- containers -------------------------------------------------------------
    def size(self, s, c):
        if c[0] == 'push':
            return add(self.size(s, c[1]), 1)
        if c[0] in ('empty', 'zero'):
            return K(0)
        if c[0] == 'k' and isinstance(c[1], str):
            return K(len(c[1]))
        return ('sz', c)

    def std_method(self, e, s, m, rl, vals, locs):
        """models of std:: container methods; returns [(s, v)] or None"""
        c = self.content(s, rl)
        if m in ('size', 'length'):
            return [(s, self.simp(s, self.size(s, c)))]
        if m == 'empty':
            return [(s, mkeq(self.simp(s, self.size(s, c)), K(0)))]
        if m in ('c_str', 'data') and STR.search(self._ot(e)):
            return [(s, c)]
        if m in ('push_back', 'push', 'emplace_back', 'push_front') and vals:
            tag = 'push'
            if depth(c) > 8:
                s, t = self.opaque(s, e, 'mut')
                return [(self.store(s, rl, t, e), TOP)]
            return [(self.store(s, rl, (tag, c, vals[0]), e), TOP)]
        if m in ('pop_back', 'pop', 'pop_front'):
            if c[0] == 'push':
                return [(self.store(s, rl, c[1], e), TOP)]
            r = ('pop', c)
            if depth(c) > 8:
                s, r = self.opaque(s, e, 'mut')
            return [(self.store(s, rl, r, e), TOP)]
        if m in ('back', 'top', 'front'):
            if m != 'front' and c[0] == 'push':
                pass
            return [(s, ('refto', ('i', rl, ('last',) if m != 'front' else K(0))))]
        if m == 'clear':
            return [(self.store(s, rl, ('empty',), e), TOP)]
        if m == 'resize' and vals and vals[0] == K(0):
            return [(self.store(s, rl, ('empty',), e), TOP)]
        if m in ('begin', 'cbegin'):
            return [(s, ('begin', c))]
        if m in ('end', 'cend'):
            return [(s, ('end', c))]
        if m == 'find' and vals:
            if STR.search(self._ot(e)):
                return [(s, ('sfind', c) + tuple(vals))]
            return [(s, ('find', c, vals[0]))]
        if m == 'count' and vals:
            return [(s, self.has(s, c, vals[0]))]
        if m == 'insert' and len(vals) == 1:
            x = vals[0]
            r = ('ins', c, x)
            if depth(c) > 8:
                s, r = self.opaque(s, e, 'mut')
            return [(self.store(s, rl, r, e), TOP)]
        if m == 'erase' and len(vals) == 1 and vals[0][0] not in ('begin', 'end', 'find', '+'):
            return [(self.store(s, rl, ('ers', c, vals[0]), e), TOP)]
        if m == 'at' and vals:
            return [(s, ('refto', ('i', rl, vals[0])))]
        if m == 'compare' and len(vals) == 1:
            return [(s, ('scmp', c, vals[0]))]
        if m == 'swap' and len(locs) == 1 and locs[0] is not None:
            o = self.content(s, locs[0])
            s1 = self.store(s, rl, o, e)
            return [(self.store(s1, locs[0], c, e), TOP)]
        return None

    def has(self, s, c, x):
        while c[0] in ('ins', 'st', 'ers'):
            if c[2] == x:
                return K(0 if c[0] == 'ers' else 1)
            if isk(c[2]) and isk(x):
                c = c[1]
                continue
            break
        if c[0] in ('empty',):
            return K(0)
        return ('has', c, x)

    def _ot(self, e):
        o = e.get('o')
        return o.get('t', '') if o else ''

    # ---- calls --------------------------------------------------------------------
    def eval_args(self, e, s, fnobj=None):
        """[(s, vals, locs)]; for reference params locs[i] is the location"""
        pm = e.get('pm') or ''
        cur = [(s, (), ())]
        for i, a in enumerate(e.get('args', [])):
            mode = pm[i] if i < len(pm) else 'v'
            nxt = []
            for s1, vs, ls in cur:
                if mode in 'cmx':
                    if a['k'] == 'lambda':
                        nxt.append((s1, vs + (('lambda', a['u']),), ls + (None,)))
                        continue
                    for s2, l in self.lv(a, s1):
                        if l[0] == 'fnref':
                            nxt.append((s2, vs + (l,), ls + (None,)))
                        else:
                            nxt.append((s2, vs + (self.load(s2, l, a),), ls + (l,)))
                else:
                    for s2, v in self.ev(a, s1):
                        nxt.append((s2, vs + (v,), ls + (None,)))
            cur = nxt
        return cur

    def ev_call(self, e, s, want_ref=False):
        out = []
        fn = e.get('fn') or ''
        o = e.get('o')
        # receivers
        if o is not None and not e.get('st'):
            if e.get('oa') and o['k'] != 'this':
                recvs = [(s1, self.deref(s1, v)) for s1, v in self.ev(o, s)]
            else:
                recvs = self.lv(o, s)
        else:
            recvs = [(s, None)]
        cev = None
        for s0, rl in recvs:
            if e.get('ce') is not None:
                pairs = self.ev(e['ce'], s0)
            else:
                pairs = [(s0, None)]
            for s1, cv in pairs:
                for s2, vals, locs in self.eval_args(e, s1):
                    out += self.call1(e, s2, fn, rl, vals, locs, cv)
        if not want_ref:
            out = [(s1, self.load(s1, v[1], e) if v[0] == 'refto' else v) for s1, v in out]
        return out

    def call1(self, e, s, fn, rl, vals, locs, cv=None):
        self.cv = cv
        r = self.h.call(self, s, e, fn, rl, (vals, locs))
        if r is not None:
            return r
        if e.get('nr'):
            if short(fn) in ('exit', 'abort', '_exit', 'terminate', 'quick_exit'):
                self.exits.append((s, vals[0] if vals else K(134), e))
            return []
        u = e.get('u')
        # lambda / function object
        if cv is not None and cv[0] == 'fnref':
            u = cv[1]
        if e.get('op') == '()' and rl is not None:
            lv = self.content(s, rl)
            if lv[0] == 'lambda':
                u = lv[1]
        if u in self.P.lambdas and u not in self.P.fns:
            ln, lf = self.P.lambdas[u]
            if len(self.stack) < self.inline_depth + 2:
                return self.inline_lambda(e, s, ln, vals, locs)
        f = self.P.fns.get(u)
        if f is not None and not (e.get('virt') and not e.get('qual') and self.P.overriders.get(u)):
            if all(g.u != f.u for g in self.fstack) and self.h.inline(self, f):
                return self.inline_fn(e, s, f, rl, vals, locs)
        mt = self.h.may_throw(self, s, e, fn)
        if mt:
            self.throws[-1].append((s, mt))
        op = e.get('op')
        sh = short(fn)
        # operators on std types
        if f is None and (op or fn.startswith('std::')):
            r = self.std_call(e, s, fn, sh, op, rl, vals, locs)
            if r is not None:
                return r
        if f is None and rl is not None and (fn.startswith('std::') or CONTAINER.match(self._ot(e))):
            r = self.std_method(e, s, sh, rl, vals, locs)
            if r is not None:
                return r
        return self.summary_call(e, s, f, fn, rl, vals, locs)

    def std_call(self, e, s, fn, sh, op, rl, vals, locs):
        if op:
            recv = None if rl is None else self.content(s, rl)
            args = list(vals)
            if rl is not None:
                args = [self.simp(s, recv)] + args
                alocs = [rl] + list(locs)
            else:
                alocs = list(locs)
            if op in ('==', '!=', '<', '>', '<=', '>=') and len(args) == 2:
                return [(s, self.binop(s, op, args[0], args[1]))]
            if op == '[]' and len(args) == 2:
                return [(s, ('refto', ('i', alocs[0], args[1])))]
            if op == '*' and len(args) == 1:
                return [(s, ('refto', self.deref(s, args[0])))]
            if op == '->' and len(args) == 1:
                v = args[0]
                return [(s, v if v[0] in ('addr',) else v)]
            if op in ('++', '--') and alocs:
                d = 1 if op == '++' else -1
                post = len(args) == 2
                old = args[0]
                nv = add(old, d)
                s1 = self.store(s, alocs[0], nv, e)
                return [(s1, old if post else ('refto', alocs[0]))]
            if op == '=' and len(args) == 2 and alocs[0] is not None:
                s1 = self.store(s, alocs[0], args[1], e)
                return [(s1, ('refto', alocs[0]))]
            if op == '+=' and len(args) == 2 and alocs[0] is not None:
                a0 = args[0]
                nv = ('cat', a0, args[1])
                if isk(a0) and isk(args[1]) and isinstance(a0[1], str) and isinstance(args[1][1], str):
                    nv = K(a0[1] + args[1][1])
                if depth(a0) > 8:
                    s, nv = self.opaque(s, e, 'mut')
                s1 = self.store(s, alocs[0], nv, e)
                return [(s1, ('refto', alocs[0]))]
            if op in ('+', '-') and len(args) == 2:
                if op == '+' and STR.search(e.get('t', '')):
                    a, b = args
                    if isk(a) and isk(b) and isinstance(a[1], str) and isinstance(b[1], str):
                        return [(s, K(a[1] + b[1]))]
                    if depth(a) > 8:
                        a = ('deep', node_id(a))
                    return [(s, ('cat', a, b))]
                return [(s, self.binop(s, op, args[0], args[1]))]
            if op in ('<<', '>>') and alocs and alocs[0] is not None:
                # stream insertion / extraction
                s1 = s
                if op == '>>' and len(alocs) > 1 and alocs[1] is not None:
                    s1, t = self.opaque(s1, e, 'rd')
                    s1 = self.store(s1, alocs[1], t, e)
                return [(s1, ('refto', alocs[0]))]
            if op == '!' and len(args) == 1:
                return [(s, mknot(args[0]))]
        if fn in ('std::move', 'std::forward') and locs:
            if locs[0] is not None:
                return [(s, ('refto', locs[0]))]
            return [(s, vals[0])]
        if fn == 'std::make_pair' and len(vals) == 2:
            return [(s, ('pair', vals[0], vals[1]))]
        if fn == 'std::swap' and len(locs) == 2 and None not in locs:
            a, b = self.content(s, locs[0]), self.content(s, locs[1])
            s1 = self.store(s, locs[0], b, e)
            return [(self.store(s1, locs[1], a, e), TOP)]
        if fn in ('std::get',) and locs and locs[0] is not None:
            return [(s, ('refto', ('f', locs[0], e.get('u', '')[:20])))]
        if sh.startswith('operator') and not e.get('args') and rl is not None:
            # conversion operator
            c = self.content(s, rl)
            return [(s, ('m', sh, c))]
        return None

    def summary_call(self, e, s, f, fn, rl, vals, locs):
        u = e.get('u')
        sh = short(fn)
        known = f is not None or u in self.P.overriders
        const_m = bool(e.get('cm'))
        pm = e.get('pm') or ''
        mutargs = [i for i in range(min(len(pm), len(vals))) if pm[i] in 'mp' and
                   (locs[i] is not None or vals[i][0] == 'addr')]
        if sh in ('strcmp',) and len(vals) == 2:
            return [(s, ('scmp', vals[0], vals[1]))]
        s1 = s
        mods = self.mods(u) if known else set()
        # globals
        for q in mods:
            if q[0] == 'g':
                l = ('v', 'g:' + q[1])
                s1, t = self.fresh(s1, ('modg', e['nid'], self.ctx, q[1]))
                s1 = self.store(s1, l, t, e)
        hav = []
        if rl is not None and not const_m:
            if known:
                names = {short(q[1]) for q in mods if q[0] == 'm'}
                cands = set()
                for l in list(s1.mem):
                    if l[0] == 'f' and self.under(l, rl) and l[2] in names:
                        cands.add(l)
                for n in names:
                    hav.append(('f', rl, n))
                hav += list(cands)
            else:
                hav.append(rl)
        for i in mutargs:
            hav.append(locs[i] if locs[i] is not None else vals[i][1])
        done = []
        for l in hav:
            if any(self.under(l, d) for d in done):
                continue
            done.append(l)
            s1, t = self.fresh(s1, ('mut', e['nid'], self.ctx, l if l[0] != 'tmp' else 0))
            s1 = self.store(s1, l, t, e)
        pure = not hav and not mods and (const_m or (known and rl is None) or (known and f is not None) or fn in PURE_EXT or sh in PURE_EXT)
        if pure:
            recv = () if rl is None else (self.content(s, rl),)
            t = ('m', fn) + recv + tuple(vals)
            if depth(t) > 12:
                s1, t = self.opaque(s1, e)
        else:
            s1, t = self.opaque(s1, e)
        rt = e.get('t', '')
        return [(s1, t)]

    def inline_lambda(self, e, s, ln, vals, locs):
        sv = self.stack
        self.stack = sv + (e['nid'],)
        try:
            s = self.bind(s, ln['params'], vals, locs)
            o = self.stmt(ln['body'], [s])
        finally:
            self.stack = sv
        return self.collect(o)

    def bind(self, s, params, vals, locs):
        s = s.copy()
        for i, p in enumerate(params):
            l = ('v', p['id'])
            for x in list(s.mem):
                if self.under(x, l):
                    del s.mem[x]
            if i >= len(vals):
                continue
            if locs[i] is not None and p['t'].rstrip().endswith('&'):
                if locs[i] != l:
                    s.mem[l] = ('refto', locs[i])
            else:
                s.mem[l] = vals[i]
        s._key = s._mt = None
        return s

    def collect(self, o):
        out = []
        for x, v in o.get('ret', []):
            out.append((x, v))
        for x in o.get('norm', []):
            out.append((x, TOP))
        # dedupe
        seen = {}
        for x, v in out:
            seen.setdefault((x.mtkey(), v) + self.h.sticky(x), []).append(x)
        res = [(g[0] if len(g) == 1 else self.joinfacts(g), kk[1]) for kk, g in seen.items()]
        if len(res) > self.CAP:
            st = self.cap([x.with_tr(__rv=v) for x, v in res])
            res = []
            for x in st:
                y = x.copy()
                v = y.tr.pop('__rv', TOP)
                res.append((y, v))
        return res

    def inline_fn(self, e, s, f, rl, vals, locs):
        sv, sthis = self.stack, s.mem.get(('thisptr',))
        self.stack = sv + (e['nid'],)
        self.fstack.append(f)
        retref = f.ret.rstrip().endswith('&')
        try:
            s = self.bind(s, f.params, vals, locs)
            if rl is not None:
                s.mem[('thisptr',)] = ('x', rl)
            o = self.stmt(f.body, [s], retref=retref)
        finally:
            self.stack = sv
            self.fstack.pop()
        lids = localids(f)

        def restore(x):
            y = x.copy()
            if sthis is None:
                y.mem.pop(('thisptr',), None)
            else:
                y.mem[('thisptr',)] = sthis
            for l in list(y.mem):
                r = root(l)
                if r[0] == 'v' and r[1] in lids or r[0] == 'rng':
                    del y.mem[l]
            return y
        # throws raised inside were collected with callee's this; fix them
        self.throws[-1] = [(restore(x) if x.mem.get(('thisptr',)) != sthis else x, t) for x, t in self.throws[-1]]
        res = self.collect(o)
        return self.collect({'ret': [(self.gcfacts(self.gc(restore(x), (v,)), v), v) for x, v in res]})

    def ev_ctor(self, e, s):
        out = []
        for s1, vals, locs in self.eval_args(e, s):
            r = self.h.call(self, s1, e, e.get('fn', ''), None, (vals, locs))
            if r is not None:
                out += r
                continue
            if e.get('cp') and vals:
                f = self.P.fns.get(e.get('u'))
                if f is None:
                    out.append((s1, vals[0]))
                    continue
            t = e['t']
            if not vals and (CONTAINER.match(t)):
                out.append((s1, K('') if STR.search(t) else ('empty',)))
                continue
            if re.match(r'^(const )?std::(__cxx11::)?basic_string<char[^<]*(<[^<>]*>[^<]*)*>$', t) and vals and len([a for a in e['args'] if a['k'] != 'defarg']) == 1:
                out.append((s1, vals[0]))
                continue
            if t.startswith('std::pair<') and len(vals) == 2:
                out.append((s1, ('pair', vals[0], vals[1])))
                continue
            f = self.P.fns.get(e.get('u'))
            mt = self.h.may_throw(self, s1, e, e.get('fn', ''))
            if f is not None and all(g.u != f.u for g in self.fstack) and self.h.inline(self, f):
                out += self.inline_ctor(e, s1, f, vals, locs)
                continue
            if mt:
                self.throws[-1].append((s1, mt))
            nonpure = any((e.get('pm') or '')[i:i + 1] in ('m', 'p') for i in range(len(vals)))
            if nonpure or self.P.recs.get(e['fn']):
                s2, v = self.opaque(s1, e)
                out.append((s2, v))
            else:
                tv = ('ctor', e['fn']) + tuple(vals)
                if depth(tv) > 10:
                    s1, tv = self.opaque(s1, e)
                out.append((s1, tv))
        return out

    def inline_ctor(self, e, s, f, vals, locs):
        tl = ('tmp', e['nid'], self.ctx)
        for x in list(s.mem):
            if self.under(x, tl):
                s = s.copy()
                del s.mem[x]
        s = self.rawstore(s, tl, ('obj', e['nid'], self.ctx))
        sv, sthis = self.stack, s.mem.get(('thisptr',))
        self.stack = sv + (e['nid'],)
        self.fstack.append(f)
        try:
            s = self.bind(s, f.params, vals, locs)
            s.mem[('thisptr',)] = ('x', tl)
            cur = self.ctor_inits(f, [s], tl)
            o = self.stmt(f.body, cur)
        finally:
            self.stack = sv
            self.fstack.pop()
        out = []
        for x, _ in self.collect(o):
            y = x.copy()
            if sthis is None:
                y.mem.pop(('thisptr',), None)
            else:
                y.mem[('thisptr',)] = sthis
            v = self.content(y, tl)
            for l in list(y.mem):
                if self.under(l, tl):
                    del y.mem[l]
            y._key = y._mt = None
            out.append((y, v))
        return out

    def ctor_inits(self, f, cur, tl):
        for i in (f.inits or []):
            if i.get('f'):
                nxt = []
                for x in cur:
                    if i['e']['k'] in ('ref', 'mem', 'call', 'un') and False:
                        pass
                    for y, v in self.ev(i['e'], x):
                        nxt.append(self.store(y, ('f', tl, short(i['f'])), v, i['e']))
                cur = nxt
            else:
                cur = [y for x in cur for y, v in self.ev(i['e'], x)]
        return cur

    def ev_new(self, e, s):
        out = []
        ol = ('o', e['nid'], self.ctx)
        if e.get('arr') is not None:
            ss = self.ev(e['arr'], s)
        else:
            ss = [(s, None)]
        for s1, n in ss:
            if self.loop:
                s1, _ = self.fresh(s1, ol)
            s1 = s1.copy()
            for l in list(s1.mem):
                if self.under(l, ol):
                    del s1.mem[l]
            s1._key = s1._mt = None
            if e.get('e') is not None:
                for s2, v in self.ev(e['e'], s1):
                    out.append((self.rawstore(s2, ol, v), ('addr', ol)))
            else:
                out.append((self.rawstore(s1, ol, ('obj', e['nid'], self.ctx)), ('addr', ol)))
        return out

    # ------------------------------------------------------------------ conditions
    def cond(self, e, s):
        """(true states, false states)"""
        k = e['k']
        if k == 'bin' and e['op'] == '&&':
            t1, f1 = self.cond(e['a'], s)
            T, F = [], list(f1)
            for x in t1:
                t2, f2 = self.cond(e['b'], x)
                T += t2
                F += f2
            return T, F
        if k == 'bin' and e['op'] == '||':
            t1, f1 = self.cond(e['a'], s)
            T, F = list(t1), []
            for x in f1:
                t2, f2 = self.cond(e['b'], x)
                T += t2
                F += f2
            return T, F
        if k == 'un' and e['op'] == '!':
            t, f = self.cond(e['e'], s)
            return f, t
        T, F = [], []
        for s1, v in self.ev(e, s):
            for x in self.assume(s1, v, True):
                y = x if x is not s1 else x.copy()
                y.path = s1.path + ((e['l'], True),)
                r = self.h.cond(self, y, e, True)
                T.append(self.gc(r if r is not None else y))
            for x in self.assume(s1, v, False):
                y = x if x is not s1 else x.copy()
                y.path = s1.path + ((e['l'], False),)
                r = self.h.cond(self, y, e, False)
                F.append(self.gc(r if r is not None else y))
        return T, F

    # ------------------------------------------------------------------ statements
    def cap(self, states):
        if len(states) <= 1:
            return states
        seen = {}
        for s in states:
            seen.setdefault((s.mtkey(),) + self.h.sticky(s), []).append(s)
        states = [g[0] if len(g) == 1 else self.joinfacts(g) for g in seen.values()]
        if len(states) <= self.CAP:
            return states
        groups = {}
        for s in states:
            groups.setdefault(s.trkey(), []).append(s)
        budget = max(1, self.CAP // (2 * max(1, len(groups))))
        out = []
        for g in groups.values():
            if len(g) <= budget:
                out += g
            else:
                self.merged += 1
                # merge greedily: join states sharing most of mem
                g.sort(key=lambda s: (sorted(map(repr, s.mem.items()))[:50], ))
                n = (len(g) + budget - 1) // budget
                for i in range(0, len(g), n):
                    out.append(self.join(g[i:i + n]))
        return out

    def joinfacts(self, g):
        a = g[0]
        f = dict(a.facts)
        for b in g[1:]:
            if b.facts == f:
                continue
            n = {}
            for t, x in f.items():
                y = b.facts.get(t)
                if y is None:
                    continue
                if x == y:
                    n[t] = x
                    continue
                z = (min(x[0], y[0]), max(x[1], y[1]), x[2] & y[2] | frozenset(
                    c for c in x[2] if isinstance(c, (int, float)) and (c < y[0] or c > y[1])) | frozenset(
                    c for c in y[2] if isinstance(c, (int, float)) and (c < x[0] or c > x[1])),
                    x[3] if x[3] == y[3] else None)
                if x[3] is not None and y[3] is None and x[3] not in y[2]:
                    z = z[:2] + (z[2],) + (None,)
                if z != (-INF, INF, frozenset(), None):
                    n[t] = z
            f = n
        r = St(a.mem, f, a.tr, a.path)
        return r

    def gc(self, s, extra=()):
        """drop dead temporaries"""
        dead = [l for l in s.mem if root(l)[0] == 'tmp']
        if not dead:
            return s
        live = set()
        for l, v in s.mem.items():
            if v[0] == 'refto' or v[0] == 'addr' or v[0] == 'x':
                live.add(root(v[1]))
        for v in extra:
            if isinstance(v, tuple) and v[0] in ('refto', 'addr'):
                live.add(root(v[1]))
        dead = [l for l in dead if root(l) not in live]
        if not dead:
            return s
        n = s.copy()
        for l in dead:
            del n.mem[l]
        return n

    def gcfacts(self, s, rv):
        """after an inlined call: forget facts about call results nobody holds any more"""
        dead = [t for t in s.facts if self.mentions_r(t)]
        if not dead:
            return s
        vals = list(s.mem.values()) + [rv] + [v for v in s.tr.values() if isinstance(v, tuple)]
        rs = set()
        for v in vals:
            collect_r(v, rs)
        n = s.copy()
        for t in dead:
            q = set()
            collect_r(t, q)
            if not q <= rs:
                del n.facts[t]
        return n

    def mentions_r(self, t):
        q = set()
        collect_r(t, q)
        return bool(q)

    def join(self, g):
        a = g[0].copy()
        if self.mark_joins:
            a.mem[('joined',)] = K(1)
        for b in g[1:]:
            for l in set(a.mem) | set(b.mem):
                va, vb = a.mem.get(l), b.mem.get(l)
                if va != vb:
                    if va is None:
                        va = self.default(a, l)
                    if vb is None:
                        vb = self.default(b, l)
                    if va != vb:
                        a.mem[l] = ('join', l)
            f = {}
            for t in a.facts:
                if t in b.facts:
                    x, y = a.facts[t], b.facts[t]
                    z = (min(x[0], y[0]), max(x[1], y[1]), x[2] & y[2], x[3] if x[3] == y[3] else None)
                    if z != (-INF, INF, frozenset(), None):
                        f[t] = z
            a.facts = {t: v for t, v in f.items() if not contains(t, 'join')}
        a._key = a._mt = None
        return a

    def stmt(self, n, states, retref=False):
        out = {'norm': [], 'brk': [], 'cont': [], 'ret': [], 'goto': []}
        if n is None:
            out['norm'] = states
            return out
        if not states:
            return out
        k = n['k']
        if k == 'block':
            return self.block(n['s'], states, retref)
        if k == 'if':
            cur = states
            if n.get('i'):
                o = self.stmt(n['i'], cur, retref)
                cur = o['norm']
            if n.get('cv'):
                cur = self.decl(n['cv'], cur)
            T, F = [], []
            for s in cur:
                t, f = self.cond(n['c'], s)
                T += t
                F += f
            self.mergeo(out, self.stmt(n['a'], self.cap(T), retref))
            if n.get('b') is not None:
                self.mergeo(out, self.stmt(n['b'], self.cap(F), retref))
            else:
                out['norm'] += F
            out['norm'] = self.cap(out['norm'])
            return out
        if k in ('while', 'for', 'do', 'rfor'):
            return self.loopst(n, states, retref)
        if k == 'switch':
            return self.switch(n, states, retref)
        if k in ('case', 'default', 'label'):
            return self.stmt(n['s'], states, retref)
        if k == 'break':
            out['brk'] = states
            return out
        if k == 'continue':
            out['cont'] = states
            return out
        if k == 'return':
            if n.get('e') is None:
                out['ret'] = [(s, TOP) for s in states]
                return out
            for s in states:
                if retref:
                    for s1, l in self.lv(n['e'], s):
                        out['ret'].append((s1, ('refto', l)))
                else:
                    out['ret'] += self.ev(n['e'], s)
            if getattr(self.h, 'track_ret', False) and not self.stack:
                out['ret'] = [(s.with_tr(ret=n['l']), v) for s, v in out['ret']]
            seen = {}
            for s, v in out['ret']:
                seen.setdefault((s.key(), v), (s, v))
            out['ret'] = list(seen.values())
            return out
        if k == 'decl':
            for v in n['vars']:
                states = self.decl(v, states)
            out['norm'] = states
            return out
        if k == 'try':
            return self.trys(n, states, retref)
        if k == 'nop' or k == 'xs':
            out['norm'] = states
            return out
        if k == 'goto':
            out['goto'] = [(s, n['n']) for s in states]
            return out
        # expression statement
        res = []
        for s in states:
            if k in ('bin', 'cond') and n.get('op') in ('&&', '||'):
                t, f = self.cond(n, s)
                res += t + f
            else:
                res += [s1 for s1, _ in self.ev(n, s)]
        out['norm'] = self.cap([self.gc(x) for x in res])
        return out

    def mergeo(self, a, b):
        for k, v in b.items():
            a[k] = a.get(k, []) + v

    def decl(self, v, states):
        out = []
        l = ('v', v['id'])
        t = v['t']
        for s in states:
            if v.get('static'):
                out.append(s)
                continue
            if any(self.under(x, l) for x in s.mem):
                s = s.copy()
                for x in list(s.mem):
                    if self.under(x, l):
                        del s.mem[x]
            # stale facts about the uninitialised incarnation
            if v.get('init') is None:
                s1, u = self.fresh(s, ('undef', v['id']))
                if CONTAINER.match(t):
                    u = ('empty',)
                out.append(self.rawstore(s1, l, u))
                continue
            if t.rstrip().endswith('&') and v['init']['k'] not in ('list', 'new'):
                for s1, tl in self.lv(v['init'], s):
                    y = s1.copy()
                    y.mem[l] = ('refto', tl)
                    out.append(y)
            else:
                for s1, val in self.ev(v['init'], s):
                    out.append(self.store(s1, l, val, v))
        return self.cap([self.gc(x) for x in out])

    def block(self, stmts, states, retref):
        out = {'norm': [], 'brk': [], 'cont': [], 'ret': [], 'goto': []}
        declared = []
        nth0 = len(self.throws[-1])
        labels = {}
        for i, st in enumerate(stmts):
            x = st
            while x is not None and x.get('k') == 'label':
                labels[x['n']] = i
                x = x['s']
        pending = [(0, states)]
        rounds = 0
        while pending:
            i0, cur = pending.pop()
            for i in range(i0, len(stmts)):
                if not cur:
                    break
                o = self.stmt(stmts[i], cur, retref)
                if stmts[i]['k'] == 'decl':
                    for v in stmts[i]['vars']:
                        d = self.dtor_of(v)
                        if d is not None and not any(dd[0] is v for dd in declared):
                            declared.append((v, d))
                for kk in ('brk', 'cont', 'ret'):
                    out[kk] += o[kk]
                for s, lab in o['goto']:
                    if lab in labels and rounds < 40:
                        rounds += 1
                        pending.append((labels[lab], [s]))
                    else:
                        out['goto'].append((s, lab))
                cur = o['norm']
            out['norm'] += cur
        if declared:
            for v, d in reversed(declared):
                for kk in ('norm', 'brk', 'cont'):
                    out[kk] = [y for x in out[kk] for y in self.run_dtor(v, d, x)]
                out['ret'] = [(y, rv) for x, rv in out['ret'] for y in self.run_dtor(v, d, x)]
                th = self.throws[-1]
                self.throws[-1] = th[:nth0] + [(y, t) for x, t in th[nth0:] for y in
                                               (self.run_dtor(v, d, x) if ('v', v['id']) in self.live(x, v) else [x])]
        out['norm'] = self.cap(out['norm'])
        return out

    def live(self, s, v):
        l = ('v', v['id'])
        return {l} if any(self.under(x, l) for x in s.mem) else set()

    def dtor_of(self, v):
        t = v['t'].replace('const ', '')
        if t not in self.P.recs:
            return None
        c = [f for f in self.P.byq.get(t + '::~' + short(t), [])]
        if not c or not c[0].body['s']:
            return None
        return c[0] if c[0].size <= 60 and self.h.inline(self, c[0]) else None

    def run_dtor(self, v, d, s):
        res = self.inline_fn({'nid': v['nid'] if 'nid' in v else 0, 'args': []}, s, d, ('v', v['id']), (), ())
        return [x for x, _ in res]

    def switch(self, n, states, retref):
        out = {'norm': [], 'brk': [], 'cont': [], 'ret': [], 'goto': []}
        body = n['b']
        items = body['s'] if body['k'] == 'block' else [body]
        flat = []   # (labels, stmt)
        for st in items:
            labs = []
            while st is not None and st['k'] in ('case', 'default'):
                if st['k'] == 'default':
                    labs.append(None)
                else:
                    lo = st['c'].get('v')
                    hi = st['hi'].get('v') if st.get('hi') else lo
                    labs.append((lo, hi))
                st = st['s']
            flat.append((labs, st))
        allc = [c for labs, _ in flat for c in labs if c is not None]
        entry = {}
        nodef = []
        for s in states:
            for s1, v in self.ev(n['c'], s):
                rest = [s1]
                for i, (labs, _) in enumerate(flat):
                    for c in labs:
                        if c is None or c[0] is None:
                            continue
                        if c[0] == c[1]:
                            m = [y for x in [s1] for y in self.assume(x, self.mkcmp(x, v, K(c[0])), True)]
                        else:
                            m = []
                            for y in self.assume(s1, mknot(mklt(v, K(c[0]))), True):
                                m += self.assume(y, mknot(mklt(K(c[1]), v)), True)
                        for y in m:
                            z = y.copy()
                            z.path = s1.path + ((flat[i][1]['l'] if flat[i][1] else n['l'], True),)
                            entry.setdefault(i, []).append(z)
                # default
                d = [s1]
                for c in allc:
                    if c[0] is None:
                        continue
                    if c[0] == c[1]:
                        d = [y for x in d for y in self.assume(x, self.mkcmp(x, v, K(c[0])), False)]
                    else:
                        dd = []
                        for x in d:
                            dd += self.assume(x, mklt(v, K(c[0])), True) + self.assume(x, mklt(K(c[1]), v), True)
                        d = dd
                di = [i for i, (labs, _) in enumerate(flat) if None in labs]
                if di:
                    entry.setdefault(di[0], []).extend(d)
                else:
                    nodef += d
        cur = []
        for i, (labs, st) in enumerate(flat):
            cur = self.cap(cur + entry.get(i, []))
            if st is None:
                continue
            o = self.stmt(st, cur, retref)
            out['norm'] += o['brk']
            out['cont'] += o['cont']
            out['ret'] += o['ret']
            out['goto'] += o['goto']
            cur = o['norm']
        out['norm'] = self.cap(out['norm'] + cur + nodef)
        return out

    def loopst(self, n, states, retref):
        out = {'norm': [], 'brk': [], 'cont': [], 'ret': [], 'goto': []}
        k = n['k']
        cur = states
        if k == 'for' and n.get('i') is not None:
            o = self.stmt(n['i'], cur, retref)
            cur = o['norm']
        if k == 'rfor':
            nxt = []
            for s in cur:
                for s1, l in self.lv(n['range'], s):
                    y = s1.copy()
                    y.mem[('rng', n['nid'])] = ('refto', l)
                    nxt.append(y)
            cur = nxt
        self.loop += 1
        work = list(self.cap(cur))
        done = set()
        iters = 0
        while work:
            h = work.pop()
            changed = set()
            for attempt in range(8):
                iters += 1
                if attempt:
                    h = self.havoc(h, changed, n)
                hk = h.key()
                if hk in done:
                    res = None
                    break
                seen = self.h.count
                res = self.once(n, h, retref)
                back = res['back']
                if attempt == 0 and self.h.count != seen:
                    self.h.back(self, n, h, back)
                if attempt == 0 and self.peel and self.loop == 1:
                    # the states that leave after exactly one iteration, before anything is forgotten
                    out['ret'] += res['ret']
                    out['norm'] += res['brk']
                    for b in back:
                        if k in ('while', 'for') and n.get('c') is not None and not n.get('cv'):
                            out['norm'] += self.cond(n['c'], b)[1]
                        elif k == 'rfor':
                            out['norm'].append(b)
                new = set()
                newtr = []
                for b in back:
                    d = self.diff(h, b)
                    new |= {x for x in d if x not in changed or not self.iswid(h, x, n)}
                    if b.trkey() != h.trkey():
                        newtr.append(b)
                if not new:
                    break
                changed |= new
            if res is None:
                continue
            done.add(h.key())
            out['ret'] += res['ret']
            out['goto'] += res['goto']
            out['norm'] += res['exit'] + res['brk']
            for b in newtr:
                hb = h.copy()
                hb.tr = dict(b.tr)
                hb._key = hb._mt = None
                if hb.key() not in done and len(done) < 24:
                    work.append(hb)
        self.loop -= 1
        if k == 'rfor':
            for s in out['norm']:
                s.mem.pop(('rng', n['nid']), None)
                s._key = s._mt = None
        out['norm'] = self.cap(out['norm'])
        return out

    def iswid(self, h, loc, n):
        v = h.mem.get(loc)
        return v is not None and v[0] == 'w' and v[1] == n['nid']

    def havoc(self, h, locs, n):
        s = h
        for l in sorted(locs, key=repr):
            t = ('w', n['nid'], l)
            # drop old facts on t
            s2 = s.copy()
            s2.facts = {kk: v for kk, v in s2.facts.items() if not contains(kk, t)}
            s = self.rawstore(s2, l, t)
        return s

    def diff(self, a, b):
        d = set()
        for l in set(a.mem) | set(b.mem):
            if l[0] in ('tmp', 'thisptr', 'rng', 'joined'):
                continue
            va = a.mem.get(l)
            vb = b.mem.get(l)
            if va == vb:
                continue
            if va is None:
                # a location first written inside the body: only matters if it existed before
                va = self.default(a, l)
            if vb is None:
                vb = self.default(b, l)
            if va != vb:
                d.add(l)
        return d

    def once(self, n, h, retref):
        k = n['k']
        res = {'back': [], 'exit': [], 'brk': [], 'ret': [], 'goto': []}
        if k in ('while', 'for'):
            if n.get('cv'):
                hs = self.decl(n['cv'], [h])
            else:
                hs = [h]
            if n.get('c') is not None:
                T, F = [], []
                for x in hs:
                    t, f = self.cond(n['c'], x)
                    T += t
                    F += f
            else:
                T, F = hs, []
            res['exit'] += F
            o = self.stmt(n['b'], self.cap(T), retref)
            nx = o['norm'] + o['cont']
            if k == 'for' and n.get('inc') is not None:
                nx = [s1 for s in self.cap(nx) for s1, _ in self.ev(n['inc'], s)]
            res['back'] = self.cap(nx)
        elif k == 'do':
            o = self.stmt(n['b'], [h], retref)
            for s in self.cap(o['norm'] + o['cont']):
                t, f = self.cond(n['c'], s)
                res['back'] += t
                res['exit'] += f
        else:  # rfor
            res['exit'].append(h)
            rl = h.mem.get(('rng', n['nid']))
            s = h
            s, t = self.fresh(s, ('it', n['nid'], self.ctx))
            v = n['var']
            y = s.copy()
            for x in list(y.mem):
                if self.under(x, ('v', v['id'])):
                    del y.mem[x]
            base = rl[1] if rl else ('tmp', n['nid'])
            el = ('d', t)
            if v['t'].rstrip().endswith('&'):
                y.mem[('v', v['id'])] = ('refto', el)
            else:
                y.mem[('v', v['id'])] = ('elof', self.content(y, base), t)
            y._key = y._mt = None
            o = self.stmt(n['b'], [y], retref)
            res['back'] = self.cap(o['norm'] + o['cont'])
        res['brk'] = o['brk']
        res['ret'] = o['ret']
        res['goto'] = o['goto']
        return res

    def trys(self, n, states, retref):
        self.throws.append([])
        out = self.stmt(n['b'], states, retref)
        th = self.throws.pop()
        for s, t in th:
            handled = False
            for h in n['h']:
                ht = h.get('t')
                if ht is None or self.catches(ht, t):
                    st = s
                    if h.get('id') is not None:
                        st = s.copy()
                        st.mem[('v', h['id'])] = ('exc', t)
                    self.throws.append([])
                    o = self.stmt(h['s'], [st], retref)
                    for s2, t2 in self.throws.pop():
                        self.throws[-1].append((s2, t if t2 == '<rethrow>' else t2))
                    self.mergeo(out, o)
                    handled = True
                    break
            if not handled:
                self.throws[-1].append((s, t))
        out['norm'] = self.cap(out['norm'])
        return out

    def catches(self, ht, t):
        ht = ht.replace('const ', '')
        if ht == t:
            return True
        if ht == 'std::exception' and t.startswith('std::'):
            return True
        return self.P.is_a(t, ht)

    # ------------------------------------------------------------------ entry
    def run(self, f, s=None):
        """analyse function f from abstract entry state; returns dict ret/throw"""
        self.steps = 0
        self.exits = []
        self.stack = ()
        self.fstack = [f]
        self.throws = [[]]
        self.loop = 0
        s = s or St()
        cur = [s]
        if f.kind == 'ctor':
            cur = self.ctor_inits(f, cur, ('T',))
        o = self.stmt(f.body, cur, retref=f.ret.rstrip().endswith('&'))
        rets = list(o['ret']) + [(x, TOP) for x in o['norm']]
        th = self.throws[0]
        self.fstack = []
        return {'ret': rets, 'throw': th, 'exit': self.exits}


def root(l):
    while l[0] in ('f', 'i'):
        l = l[1]
    return l


def collect_r(t, acc):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and x[0] in ('r', 'mut', 'rd', 'undef', 'it'):
                acc.add(x)
            st.extend(y for y in x if isinstance(y, (tuple, frozenset)))
        elif isinstance(x, frozenset):
            st.extend(x)


def localids(f):
    ids = getattr(f, '_lids', None)
    if ids is None:
        ids = {p['id'] for p in f.params}
        for n in walk(f.body):
            if n.get('k') == 'vardecl' and not n.get('static'):
                ids.add(n['id'])
            elif n.get('k') == 'rfor':
                ids.add(n['var']['id'])
            elif n.get('k') == 'lambda':
                ids |= {p['id'] for p in n['params']}
            elif 'id' in n and n.get('k') is None:
                ids.add(n['id'])
        f._lids = ids
    return ids


def node_id(v):
    import zlib
    return zlib.crc32(repr(v).encode())


def mkeq(a, b):
    if isk(a) and isk(b):
        return K(int(a[1] == b[1]))
    if isk(a) and not isk(b):
        a, b = b, a
    if isk(b) and b[1] in (0, False) and not isinstance(b[1], str) and a[0] in ('==', '<', 'not', 'and', 'or'):
        return mknot(a)
    if isk(b) and b[1] in (1, True) and not isinstance(b[1], str) and a[0] in ('==', '<', 'not', 'and', 'or'):
        return a
    if a[0] == 'scmp' and b == K(0):
        return mkeq(a[1], a[2])
    if not isk(b) and repr(b) < repr(a):
        a, b = b, a
    if a[0] == '+' and isk(b) and not isinstance(b[1], str):
        return mkeq(a[1], K(b[1] - a[2]))
    return ('==', a, b)


def mkneg(v):
    if isk(v) and not isinstance(v[1], str):
        return K(-v[1])
    if v[0] == 'neg':
        return v[1]
    return ('neg', v)


def mklt(a, b):
    if isk(a) and isk(b):
        try:
            return K(int(a[1] < b[1]))
        except TypeError:
            pass
    # unsigned/size comparisons with 0
    if a == K(0) and b[0] in ('sz', 'has'):
        return mknot(mkeq(b, K(0)))
    if a[0] in ('sz', 'has') and b == K(1):
        return mkeq(a, K(0))
    if isk(b) and b[1] == 0 and not isinstance(b[1], str) and a[0] in ('sz', 'has'):
        return K(0)
    return ('<', a, b)


def mknot(v):
    if isk(v):
        return K(int(not v[1]))
    if v[0] == 'not':
        return v[1]
    if v[0] in ('==', '<', 'and', 'or'):
        return ('not', v)
    return mkeq(v, K(0))


def wrap(x, t):
    w = {'unsigned char': (8, 0), 'char': (8, 1), 'signed char': (8, 1), 'unsigned short': (16, 0), 'short': (16, 1),
         'unsigned int': (32, 0), 'int': (32, 1), 'unsigned long': (64, 0), 'long': (64, 1), 'bool': (1, 0)}.get(t)
    if not w:
        return x
    if t == 'bool':
        return int(bool(x))
    m = x & ((1 << w[0]) - 1)
    if w[1] and m >> (w[0] - 1):
        m -= 1 << w[0]
    return m


def wrtargets(e):
    """set of ('g', qname) / ('m', qualified field) syntactically written through e"""
    out = set()
    x = e
    while x is not None:
        k = x.get('k')
        if k == 'ref':
            if x.get('dk') in ('glob', 'slocal'):
                out.add(('g', x['n']))
            return out
        if k == 'mem':
            if x.get('dk') == 'sfield':
                out.add(('g', x['n']))
                return out
            out.add(('m', x['n']))
            x = x['b']
            continue
        if k == 'idx':
            x = x['a']
            continue
        if k in ('un', 'cast', 'opq'):
            x = x.get('e')
            continue
        if k == 'call' and x.get('o') is not None:
            x = x['o']
            continue
        return out
    return out
