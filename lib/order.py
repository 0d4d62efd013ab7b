"""Finite case analysis of comparison functions.

A comparison function looks at its two values only through terms (fields, getters, elements of strings or vectors), compares them with each
other or with constants, and combines the outcomes.  Every outcome is determined by where the terms' values lie in a small linear order, so
the laws of an order (or an equality) are decided by enumerating these positions for two or three values.  Functions that do anything else
raise Unknown.  Nothing is run: the interpretation is over the resolved syntax tree and abstract positions."""
import hf
from absint import short
from cfg import strip


class Unknown(Exception):
    pass


class Need(Exception):
    def __init__(self, key, dom):
        self.key, self.dom = key, dom


class Refine(Exception):
    pass


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Brk(Exception):
    pass


class _Cont(Exception):
    pass


class Elt:
    __slots__ = ('i', 'path')

    def __init__(self, i, path=''):
        self.i, self.path = i, path

    def __eq__(self, o):
        return isinstance(o, Elt) and (self.i, self.path) == (o.i, o.path)

    def __hash__(self):
        return hash((self.i, self.path))


class Env:              # the state of a functor, the globals: the same for all values
    __slots__ = ('path',)

    def __init__(self, path=''):
        self.path = path


class Dyn:              # a value seen as a derived class
    __slots__ = ('v', 't')

    def __init__(self, v, t):
        self.v, self.t = v, t


class It:
    __slots__ = ('base', 'n')

    def __init__(self, base, n):
        self.base, self.n = base, n


class Len:
    __slots__ = ('base',)

    def __init__(self, base):
        self.base = base


class Tup:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


WRAP = {'operator->', 'operator*', 'get', 'c_str', 'data', 'at', 'operator[]', 'begin', 'end', 'size', 'length', 'front', 'cbegin', 'cend'}
N = 2                   # sequences are compared through their first N elements


class Laws:
    def __init__(self, P, limit=12000):
        self.P, self.limit = P, limit
        self.dom = {}
        self.consts = {}
        self.runs = 0
        self.terms = set()
        self.counted = set()

    # ---- evaluation
    def value(self, x):
        """position of a scalar term"""
        if isinstance(x, Elt):
            k = (x.i, x.path)
            self.terms.add(x.path)
            return self.pick(k, x.path)
        if isinstance(x, Env):
            return self.pick(('env', x.path), 'env:' + x.path)
        if isinstance(x, Len):
            if isinstance(x.base, Elt):
                return self.value(Elt(x.base.i, x.base.path + '#len'))
            raise Unknown('length')
        return x

    def pick(self, k, term):
        if k not in self.asg:
            raise Need(k, self.domain(term))
        return self.asg[k]

    def domain(self, term):
        if term == 'dynamic type':
            return [0, 1]
        if term in self.dom:
            return self.dom[term]
        return [0, 1, 2] if not self.small else [0, 1]

    def const(self, term, v):
        cs = self.consts.setdefault(term, set())
        if v not in cs:
            cs.add(v)
            if len(cs) > 6:
                raise Unknown('many constants')
            d = set()
            if isinstance(v, str):
                s = sorted(cs)
                self.dom[term] = list(range(2 * len(s) + 1))
            else:
                for x in cs:
                    d |= {x - 1, x, x + 1}
                self.dom[term] = sorted(d)
            raise Refine()
        if isinstance(v, str):
            return 2 * sorted(cs).index(v) + 1
        return v

    def term(self, x):
        if isinstance(x, Elt):
            return x.path
        if isinstance(x, Env):
            return 'env:' + x.path
        if isinstance(x, Len) and isinstance(x.base, Elt):
            return x.base.path + '#len'
        return None

    def compare(self, a, b):
        """-1, 0, 1"""
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.v) == len(b.v):
            for x, y in zip(a.v, b.v):
                c = self.compare(x, y)
                if c:
                    return c
            return 0
        if isinstance(a, It) and isinstance(b, It):
            if not isinstance(a.base, Elt) or a.base != b.base:
                raise Unknown('iterators')
            return (a.n > b.n) - (a.n < b.n)
        for x, y, sg in ((a, b, 1), (b, a, -1)):
            if isinstance(x, Len) and isinstance(y, int) and not isinstance(y, bool) and (self.looping or self.term(x) in self.counted):
                if self.looping:
                    self.counted.add(self.term(x))
                return sg * ((N > y) - (N < y))
        if isinstance(a, Dyn) and b == 0:           # the values compared are of one type
            return self.pick(('env', a.t), 'dynamic type')
        if isinstance(b, Dyn) and a == 0:
            return self.pick(('env', b.t), 'dynamic type')
        sa, sb = isinstance(a, (Elt, Env, Len)), isinstance(b, (Elt, Env, Len))
        if isinstance(a, (Tup, It)) or isinstance(b, (Tup, It)) or a is None or b is None:
            raise Unknown('comparison')
        if sa and not sb:
            cv = self.const(self.term(a), b)
            v = self.value(a)
            return (v > cv) - (v < cv)
        if sb and not sa:
            return -self.compare(b, a)
        va, vb = self.value(a), self.value(b)
        if isinstance(va, str) != isinstance(vb, str):
            raise Unknown('comparison')
        return (va > vb) - (va < vb)

    def truth(self, x):
        if isinstance(x, bool):
            return x
        if isinstance(x, (int, float)):
            return x != 0
        if isinstance(x, (Elt, Env, Len, Dyn)):
            return self.compare(x, 0) != 0
        raise Unknown('condition')

    def rel(self, op, a, b):
        if isinstance(a, bool) and isinstance(b, bool) or isinstance(a, (int, float)) and isinstance(b, (int, float)):
            c = (a > b) - (a < b)
        else:
            c = self.compare(a, b)
        return {'<': c < 0, '>': c > 0, '<=': c <= 0, '>=': c >= 0, '==': c == 0, '!=': c != 0}[op]

    def ev(self, e, env):
        while e.get('k') in ('cast', 'paren', 'defarg', 'opq') and e.get('ck') != 'dynamic' and isinstance(e.get('e'), dict):
            e = e['e']
        k = e.get('k')
        if k == 'cast' and e.get('ck') == 'dynamic':
            return Dyn(self.ev(e['e'], env), e.get('t') or '')
        if k in ('int', 'bool', 'str', 'flt', 'chr'):
            v = e['v']
            return ord(v) if k == 'chr' and isinstance(v, str) and len(v) == 1 else v
        if k == 'null':
            return 0
        if k == 'this':
            return env['this']
        if k == 'ref':
            dk = e.get('dk')
            if dk == 'enum':
                v = e.get('v')
                if v is None:
                    raise Unknown('enumerator')
                return v
            i = tuple(e['id']) if isinstance(e.get('id'), (list, tuple)) else e.get('id')
            if i in env:
                return env[i]
            if dk == 'glob' or isinstance(i, str) or dk is None or i is None:
                return Env('::' + str(e.get('n')))
            raise Unknown('variable ' + str(e.get('n')))
        if k == 'mem':
            b = self.ev(e['b'], env) if e.get('b') is not None else env['this']
            return self.member(b, e['m'])
        if k == 'idx':
            return self.element(self.ev(e['a'], env), self.ev(e['b'], env))
        if k == 'un':
            op = e.get('op')
            if op == '!':
                return not self.truth(self.ev(e['e'], env))
            if op in ('*', '&'):
                v = self.ev(e['e'], env)
                return self.deref(v) if op == '*' else v
            if op in ('++', '--', 'p++', 'p--'):
                t = strip(e['e'])
                old = self.ev(t, env)
                d = 1 if '++' in op else -1
                if isinstance(old, bool) or not isinstance(old, (int, It)) or t.get('k') != 'ref':
                    raise Unknown('increment')
                new = It(old.base, old.n + d) if isinstance(old, It) else old + d
                env[self.vid(t)] = new
                return old if op.startswith('p') else new
            if op == '-':
                v = self.ev(e['e'], env)
                if isinstance(v, (int, float)):
                    return -v
            raise Unknown('operator ' + str(op))
        if k == 'bin':
            op = e['op']
            if op == '&&':
                return self.truth(self.ev(e['a'], env)) and self.truth(self.ev(e['b'], env))
            if op == '||':
                return self.truth(self.ev(e['a'], env)) or self.truth(self.ev(e['b'], env))
            if op == ',':
                self.ev(e['a'], env)
                return self.ev(e['b'], env)
            a, b = self.ev(e['a'], env), self.ev(e['b'], env)
            if op in ('<', '>', '<=', '>=', '==', '!='):
                return self.rel(op, a, b)
            if op in ('+', '-') and isinstance(a, It) and isinstance(b, int):
                return It(a.base, a.n + (b if op == '+' else -b))
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                if op == '+':
                    return a + b
                if op == '-':
                    return a - b
                if op == '*':
                    return a * b
            raise Unknown('operator ' + op)
        if k == 'cond':
            return self.ev(e['a'], env) if self.truth(self.ev(e['c'], env)) else self.ev(e['b'], env)
        if k == 'asg':
            t = strip(e['a'])
            if t.get('k') != 'ref' or e.get('op') not in ('=', '+=', '|=', '&='):
                raise Unknown('assignment')
            v = self.ev(e['b'], env)
            if e['op'] != '=':
                o = self.ev(t, env)
                if e['op'] == '|=':
                    v = self.truth(o) or self.truth(v)
                elif e['op'] == '&=':
                    v = self.truth(o) and self.truth(v)
                elif isinstance(o, int) and isinstance(v, int):
                    v = o + v
                else:
                    raise Unknown('assignment')
            env[self.vid(t)] = v
            return v
        if k == 'ctor':
            args = [a for a in e.get('args', []) if a.get('k') != 'defarg']
            if len(args) == 1:
                return self.ev(args[0], env)
            if len(args) >= 2 and ('pair<' in (e.get('t') or '') or 'tuple<' in (e.get('t') or '')):
                return Tup([self.ev(a, env) for a in args])
            raise Unknown('constructor')
        if k == 'call':
            return self.call(e, env)
        raise Unknown('expression ' + str(k))

    @staticmethod
    def vid(t):
        return tuple(t['id']) if isinstance(t['id'], (list, tuple)) else t['id']

    def member(self, b, m):
        if isinstance(b, Dyn):
            b = b.v
        if isinstance(b, Elt):
            return Elt(b.i, b.path + '.' + m)
        if isinstance(b, Env):
            return Env(b.path + '.' + m)
        if isinstance(b, Tup):
            return b.v[0 if m == 'first' else 1]
        if isinstance(b, It):
            return self.member(self.deref(b), m)
        raise Unknown('member')

    def deref(self, v):
        if isinstance(v, Dyn):
            v = v.v
        if isinstance(v, It):
            return self.element(v.base, v.n)
        return v

    def element(self, a, i):
        if isinstance(i, int) and isinstance(a, Elt):
            return Elt(a.i, a.path + '[%d]' % i)
        if isinstance(i, int) and isinstance(a, Env):
            return Env(a.path + '[%d]' % i)
        raise Unknown('element')

    def call(self, e, env):
        s = short(e.get('fn', ''))
        op = e.get('op')
        parts = ([e['o']] if e.get('o') is not None else []) + [a for a in e.get('args', []) if a.get('k') != 'defarg']
        P = self.P
        f = P.fns.get(e.get('u'))
        vals = [self.ev(p, env) for p in parts]
        relop = op if op in ('<', '>', '<=', '>=', '==', '!=') else (s[8:] if s.startswith('operator') and s[8:] in ('<', '>', '<=', '>=', '==', '!=') else None)
        std = f is None or f.body is None
        if std and relop and len(vals) == 2:
            return self.rel(relop, vals[0], vals[1])
        if std and s in ('strcmp', 'compare', 'strcoll', 'wcscmp') and len(vals) == 2:
            return self.compare(vals[0], vals[1])
        if std and s in ('make_pair', 'tie', 'make_tuple', 'forward_as_tuple'):
            return Tup(vals)
        if std and (s.startswith('less') or (e.get('fn') or '').startswith('std::less<')) and len(vals) >= 2:
            return self.compare(vals[-2], vals[-1]) < 0
        if std and s == 'max' and len(vals) == 2:
            raise Unknown('max')
        if std and s in ('move', 'forward', 'ref', 'cref', 'as_const', 'addressof') and len(vals) == 1:
            return vals[0]
        if s in WRAP and std and vals:
            b = vals[0]
            if s in ('size', 'length'):
                return Len(b)
            if s in ('begin', 'cbegin'):
                return It(b, 0)
            if s in ('end', 'cend'):
                return It(b, N)
            if s in ('at', 'operator[]') and len(vals) == 2:
                return self.element(b, vals[1])
            if s == 'front':
                return self.element(b, 0)
            return self.deref(b)
        if std and op == '[]' and len(vals) == 2:
            return self.element(vals[0], vals[1])
        if std and op in ('*', '->') and len(vals) == 1:
            return self.deref(vals[0])
        if std and op in ('++', 'p++') or std and s == 'operator++':
            t = strip(parts[0])
            if t.get('k') == 'ref' and isinstance(vals[0], It):
                env[self.vid(t)] = It(vals[0].base, vals[0].n + 1)
                return env[self.vid(t)]
        if std and s == 'empty' and isinstance(vals[0], Elt):
            return Elt(vals[0].i, vals[0].path + '#empty')
        if f is not None and f.body is not None and self.depth < 8:
            tg = P.overriders.get(e.get('u')) if e.get('virt') and not e.get('qual') else None
            if not tg:
                sub = {}
                ps = f.params
                vs = vals
                if e.get('o') is not None and f.cls:
                    sub['this'] = vals[0] if not f.st else Env('this')
                    vs = vals[1:]
                if len(vs) == len(ps):
                    for p, v in zip(ps, vs):
                        sub[tuple(p['id'])] = v
                    self.depth += 1
                    try:
                        return self.body(f.body, sub)
                    except Unknown:
                        pass
                    finally:
                        self.depth -= 1
        # an unknown function of one value: a term; of plain terms: a function of their positions
        elts = {v.i for v in vals if isinstance(v, Elt)}
        if any(isinstance(v, (It, Tup, Len)) for v in vals) or len(elts) > 1:
            raise Unknown('call of ' + s)
        if (e.get('pm') or '').find('m') >= 0:
            raise Unknown('call of ' + s)
        el = [v for v in vals if isinstance(v, Elt)]
        if not el:
            return Env('%s(%s)' % (e.get('fn'), ','.join(v.path if isinstance(v, Env) else repr(v) for v in vals)))
        if len(el) == 1 and el[0].path.count('.') + el[0].path.count('[') >= 1:
            t = '%s(%s)' % (e.get('fn'), ','.join(v.path if isinstance(v, (Elt, Env)) else repr(v) for v in vals))
            return Fun(self, t, el[0])
        i = next(iter(elts))
        return Elt(i, '%s(%s)' % (e.get('fn'), ','.join(v.path if isinstance(v, (Elt, Env)) else repr(v) for v in vals)))

    # ---- statements
    def body(self, b, env):
        try:
            self.st(b, env)
        except _Ret as r:
            return r.v
        raise Unknown('no result')

    def st(self, s, env):
        if s is None:
            return
        k = s.get('k')
        if k == 'block':
            for x in s['s']:
                self.st(x, env)
        elif k == 'return':
            if s.get('e') is None:
                raise Unknown('no result')
            raise _Ret(self.ev(s['e'], env))
        elif k == 'if':
            if s.get('i') is not None:
                self.st(s['i'], env)
            if s.get('cv') is not None:
                raise Unknown('condition variable')
            if self.truth(self.ev(s['c'], env)):
                self.st(s['a'], env)
            else:
                self.st(s.get('b'), env)
        elif k == 'decl':
            for v in s['vars']:
                if v.get('k') == 'vardecl':
                    if v.get('init') is not None:
                        env[tuple(v['id'])] = self.ev(v['init'], env)
        elif k in ('while', 'for', 'do'):
            if k == 'for':
                self.st(s.get('i'), env) if isinstance(s.get('i'), dict) else None
            for n in range(12):
                was, self.looping = self.looping, True
                try:
                    if not (k == 'do' and n == 0) and s.get('c') is not None and not self.truth(self.ev(s['c'], env)):
                        return
                finally:
                    self.looping = was
                try:
                    self.st(s['b'], env)
                except _Brk:
                    return
                except _Cont:
                    pass
                if k == 'for' and s.get('inc') is not None:
                    self.ev(s['inc'], env)
            raise Unknown('loop')
        elif k == 'switch':
            v = self.ev(s['c'], env)
            stmts = s['b']['s'] if s['b'].get('k') == 'block' else [s['b']]
            flat = []
            for x in stmts:
                while isinstance(x, dict) and x.get('k') in ('case', 'default'):
                    flat.append(('L', x))
                    x = x.get('s')
                flat.append(('S', x))
            start = None
            for i, (t, x) in enumerate(flat):
                if t == 'L' and x['k'] == 'case':
                    cv = x.get('c')
                    cv = self.ev(cv, env) if isinstance(cv, dict) else cv
                    if cv is None:
                        raise Unknown('case')
                    if self.rel('==', v, cv):
                        start = i
                        break
            if start is None:
                start = next((i for i, (t, x) in enumerate(flat) if t == 'L' and x['k'] == 'default'), None)
            if start is None:
                return
            try:
                for t, x in flat[start:]:
                    if t == 'S' and x is not None:
                        self.st(x, env)
            except _Brk:
                return
        elif k == 'break':
            raise _Brk()
        elif k == 'continue':
            raise _Cont()
        elif k in ('nop', 'null'):
            return
        elif k == 'cast' and 'void' in (s.get('t') or ''):
            return
        else:
            self.ev(s, env)

    # ---- laws
    def holds(self, call, fn):
        """value of fn on the elements given by call for the current assignment"""
        if isinstance(fn, dict):            # a lambda
            env = {tuple(p['id']): Elt(i) for p, i in zip(fn['params'], call)}
            env['this'] = Env('this')
            self.depth, self.looping = 0, False
            return self.truth(self.body(fn['body'], env))
        if len(fn.params) == 2:
            env = {tuple(p['id']): Elt(i) for p, i in zip(fn.params, call)}
            env['this'] = Env('this')
        else:
            env = {'this': Elt(call[0]), tuple(fn.params[0]['id']): Elt(call[1])}
        self.depth, self.looping = 0, False
        return self.truth(self.body(fn.body, env))

    def search(self, pred):
        """an assignment of positions for which pred is False, or None; Unknown if it cannot be decided"""
        for attempt in (0, 1):
            self.small = attempt == 1
            self.runs = 0
            try:
                while True:
                    try:
                        return self._dfs(pred)
                    except Refine:
                        continue
            except Unknown as u:
                if str(u) != 'limit' or attempt == 1:
                    raise
        return None

    def _dfs(self, pred):
        stack = [{}]
        while stack:
            a = stack.pop()
            self.asg = a
            self.runs += 1
            if self.runs > self.limit:
                raise Unknown('limit')
            try:
                if not pred():
                    ts = sorted({t for i, t in a})
                    for x in ts:              # a term looked at as a whole and by its parts
                        if any(y != x and y.startswith(x) and y[len(x)] in '.[#' for y in ts if y) and x:
                            raise Unknown('a term and its parts')
                    return a
            except Need as n:
                for v in n.dom:
                    b = dict(a)
                    b[n.key] = v
                    stack.append(b)
        return None


class _Fun(Elt):
    pass


def Fun(L, term, arg):
    """the value of a function of a term: determined by the position of the term"""
    v = L.value(arg)
    return Elt(('f', v), term)


def strict_weak(P, fn):
    """(law, assignment) of a law of a strict weak order that fn breaks, or None"""
    L = Laws(P)
    h = lambda *c: L.holds(c, fn)
    r = L.search(lambda: not h(0, 0))
    if r is not None:
        return 'a value is less than itself', r, L
    r = L.search(lambda: not (h(0, 1) and h(1, 0)))
    if r is not None:
        return 'two values are each less than the other', r, L
    r = L.search(lambda: not (h(0, 1) and h(1, 2) and not h(0, 2)))
    if r is not None:
        return 'a < b and b < c but not a < c', r, L

    def inc(x, y):
        return not h(x, y) and not h(y, x)
    r = L.search(lambda: not (inc(0, 1) and inc(1, 2) and not inc(0, 2)))
    if r is not None:
        return 'a and b, and b and c, are equivalent but a and c are not', r, L
    return None, None, L


def equality(P, fn):
    L = Laws(P)
    h = lambda *c: L.holds(c, fn)
    r = L.search(lambda: h(0, 0))
    if r is not None:
        return 'a value is not equal to itself', r, L
    r = L.search(lambda: not (h(0, 1) and not h(1, 0)))
    if r is not None:
        return 'a equals b but b does not equal a', r, L
    r = L.search(lambda: not (h(0, 1) and h(1, 2) and not h(0, 2)))
    if r is not None:
        return 'a equals b and b equals c but a does not equal c', r, L
    return None, None, L


def opposite(P, eq, ne):
    L = Laws(P)
    return L.search(lambda: L.holds((0, 1), eq) != L.holds((0, 1), ne))


def refines(P, lt, weak, path):
    """values that weak orders (looking at the part path of them) are in the same order for lt"""
    L = Laws(P)

    def w(a, b):
        env = {'this': Elt(a, path), tuple(weak.params[0]['id']): Elt(b, path)}
        L.depth, L.looping = 0, False
        return L.truth(L.body(weak.body, env))
    return L.search(lambda: not (w(0, 1) and not L.holds((0, 1), lt))), L


def separates(P, eq, lt):
    """values that are not equal are ordered"""
    L = Laws(P)
    return L.search(lambda: L.holds((0, 1), eq) or L.holds((0, 1), lt) or L.holds((1, 0), lt))


def agree(P, eq, lt):
    """equal values are not ordered"""
    L = Laws(P)
    return L.search(lambda: not (L.holds((0, 1), eq) and (L.holds((0, 1), lt) or L.holds((1, 0), lt))))


def distinguishes(P, lt):
    """terms the order depends on"""
    L = Laws(P)
    L.search(lambda: L.holds((0, 1), lt) or True)
    return L.terms
