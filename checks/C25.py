#!/usr/bin/env python3
"""C25: values are copied whole and compared by consistent orders and equalities."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import hf, chk, cfg, order
from absint import short
from cfg import strip, ref


def base(t):
    return re.sub(r'\b(const|volatile|class|struct)\b|[&*]', '', t).strip()


def disp(q):
    q = re.sub(r'(hfst::|implementations::|std::__cxx11::|__gnu_cxx::)', '', q)
    return re.sub(r'<.*>', '<>', q)


class Ctx:
    def __init__(self, P):
        self.P = P
        self.memo = {}
        self.obs = None

    def fields(self, cls):
        r = self.P.recs.get(cls)
        return {f['n']: f for f in r['fields'] if f['n']} if r else {}

    def observed(self, cls):
        """fields whose value is looked at anywhere, other than to give the same field of another object its value"""
        if self.obs is None:
            self.obs = {}
            for f in self.P.fns.values():
                if f.body is None:
                    continue
                skip = set()
                for n in hf.walk(f.body):
                    if n.get('k') == 'asg' and n.get('op') == '=' or n.get('k') == 'call' and n.get('op') == '=':
                        a = strip(n['a'] if n['k'] == 'asg' else (n['o'] if n.get('o') is not None else n['args'][0]))
                        b = strip(n['b'] if n['k'] == 'asg' else n['args'][-1])
                        if a.get('k') == 'mem':
                            skip.add(id(a))
                            while b.get('k') == 'ctor' and len(b.get('args', [])) == 1:
                                b = strip(b['args'][0])
                            if b.get('k') == 'mem' and b.get('n') == a.get('n'):
                                skip.add(id(b))
                for i in f.inits or []:
                    e = strip(i['e']) if i.get('e') is not None else {}
                    while e.get('k') == 'ctor' and len(e.get('args', [])) == 1:
                        e = strip(e['args'][0])
                    if e.get('k') == 'mem' and i.get('f') and short(i['f']) == e['m']:
                        skip.add(id(e))
                for n in hf.walk([f.body] + [i.get('e') for i in f.inits or []]):
                    if n.get('k') == 'mem' and id(n) not in skip:
                        q = n['n']
                        self.obs.setdefault(q.rsplit('::', 1)[0], set()).add(n['m'])
        return self.obs.get(cls, set())

    # fields of the object that a member function (and the functions it calls on the same object) looks at
    def touched(self, f, d=0):
        k = f.u
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = set()
        out = set()
        for n in hf.walk([f.body] + [i.get('e') for i in f.inits or []]):
            if n.get('k') == 'mem' and (n.get('b') is None or strip(n['b']).get('k') == 'this'):
                out.add(n['m'])
            elif n.get('k') == 'call' and d < 6:
                o = n.get('o')
                if o is not None and strip(o).get('k') == 'this':
                    g = self.P.fns.get(n.get('u'))
                    if g is not None and g.body is not None:
                        out |= self.part(n, self.touched(g, d + 1))
        self.memo[k] = out
        return out

    def part(self, call, fields):
        """a member function called with a constant looks at one item of a field, not at all of it"""
        cs = [a for a in call.get('args', []) if a.get('k') != 'defarg']
        if cs and all(constant(a) for a in cs):
            return {x if x.startswith('~') else '~' + x for x in fields}
        return fields


def constant(n):
    n = strip(n)
    while isinstance(n, dict) and n.get('k') == 'ctor':
        a = [x for x in n.get('args', []) if x.get('k') != 'defarg']
        if len(a) != 1:
            return not a
        n = strip(a[0])
    return isinstance(n, dict) and (n.get('k') in ('str', 'int', 'chr', 'bool', 'flt', 'null') or n.get('k') == 'ref' and n.get('dk') == 'enum')


def root(n):
    """(root node, list of members from the root)"""
    path = []
    n = strip(n)
    while isinstance(n, dict):
        k = n.get('k')
        if k == 'mem':
            path.append(n['m'])
            n = strip(n['b']) if n.get('b') is not None else {'k': 'this'}
        elif k == 'idx':
            n = strip(n['a'])
        elif k == 'un' and n.get('op') in ('*', '&'):
            n = strip(n['e'])
        elif k == 'call' and n.get('op') in ('[]', '->', '*') and (n.get('o') is not None or n.get('args')):
            n = strip(n['o'] if n.get('o') is not None else n['args'][0])
        else:
            break
    return n, list(reversed(path))


DERIVED = ('type', 'version')       # attributes that are not kept but derived from the transducer when it is written


def filters(body, write):
    """(complaint or None, line) when items are copied only if a condition holds that leaves out more than derived attributes"""
    out = []

    def conj(c, pos):
        c = strip(c)
        if c.get('k') == 'un' and c.get('op') == '!':
            return conj(c['e'], not pos)
        if c.get('k') == 'bin' and (c.get('op') == '&&' and pos or c.get('op') == '||' and not pos):
            return conj(c['a'], pos) + conj(c['b'], pos)
        return [(c, pos)]

    def judge(c, pos):
        for x, p in conj(c, pos):
            op = x.get('op') if x.get('k') in ('bin', 'call') else None
            if op in ('==', '!='):
                ss = [y.get('v') for y in hf.walk(x) if y.get('k') == 'str']
                if len(ss) == 1:
                    if (op == '!=') == p:
                        if ss[0] not in DERIVED:
                            out.append(('items with the key "%s" are not copied' % ss[0], x.get('l')))
                    else:
                        out.append(('only items with the key "%s" are copied' % ss[0], x.get('l')))
                    continue
            out.append((None, x.get('l')))

    def go(s, conds):
        if s is None or not isinstance(s, dict):
            return conds
        k = s.get('k')
        if k == 'block':
            for x in s['s']:
                conds = go(x, conds)
            return conds
        if k == 'if':
            jump = lambda b: any(x.get('k') in ('continue', 'break', 'return') for x in hf.walk(b)) if b is not None else False
            go(s['a'], conds + [(s['c'], True)])
            go(s.get('b'), conds + [(s['c'], False)])
            if jump(s['a']):
                conds = conds + [(s['c'], False)]
            if s.get('b') is not None and jump(s['b']):
                conds = conds + [(s['c'], True)]
            return conds
        if any(write(x) for x in hf.walk(s)):
            if not conds:
                out.append('all')
            for c, p in conds:
                judge(c, p)
        return conds
    go(body, [])
    if not out or 'all' in out:
        return None
    bad = [o for o in out if o[0] is not None]
    return bad[0] if bad else out[0]


def copies(c, X, f):
    """a copy constructor or assignment reads every field of its argument and gives every field of the object its value"""
    P = X.P
    fields = X.fields(f.cls)
    site0 = disp(f.q)
    if not fields:
        return 0
    pid = tuple(f.params[0]['id'])
    alias = {}
    read, written, cross, whole, opaque = set(), set(), {}, False, False

    others = {pid}

    def is_other(n):
        n = strip(n)
        return isinstance(n, dict) and n.get('k') == 'ref' and n.get('id') is not None and tuple(n['id']) in others
    for n in hf.walk(f.body):
        if n.get('k') == 'vardecl' and n.get('init') is not None and ('&' in (n.get('t') or '') or '*' in (n.get('t') or '')):
            r, p = root(n['init'])
            if is_other(r) and not p:
                others.add(tuple(n['id']))

    def is_this(n):
        n = strip(n)
        while isinstance(n, dict) and n.get('k') == 'un' and n.get('op') in ('*', '&'):
            n = strip(n['e'])
        return isinstance(n, dict) and n.get('k') == 'this'

    def other_fields(e):
        out = set()
        for n in hf.walk(e):
            if n.get('k') == 'mem' and n.get('b') is not None:
                r, p = root(n)
                if isinstance(r, dict) and is_other(r) and p:
                    out.add(p[0])
            elif n.get('k') == 'call' and n.get('o') is not None and is_other(n['o']):
                g = P.fns.get(n.get('u'))
                if g is not None and g.body is not None:
                    out |= X.part(n, X.touched(g))
                else:
                    out.add('?')
        return out

    def field_write(n):
        t = n.get('a') if n.get('k') == 'asg' else (n['o'] if n.get('k') == 'call' and n.get('o') is not None and not n.get('cm') else None)
        if n.get('k') == 'call' and n.get('op') == '=':
            t = n['o'] if n.get('o') is not None else n['args'][0]
        if t is None:
            return None
        r, p = root(t)
        return p[0] if isinstance(r, dict) and r.get('k') == 'this' and p else None

    nodes = [f.body] + [i.get('e') for i in f.inits or [] if i.get('e') is not None]
    base_whole = False
    for i in f.inits or []:
        if i.get('f') and short(i['f']) in fields:
            if i.get('e') is not None and not (i['e'].get('k') == 'ctor' and not i['e'].get('args')):
                written.add(short(i['f']))
        elif i.get('e') is not None:
            base_whole = True
            # delegating constructor: the same class is built from the argument
            if i['e'].get('k') == 'ctor' and base(i['e'].get('t') or '') == f.cls:
                g = P.fns.get(i['e'].get('u'))
                whole = True
    read |= other_fields(nodes)
    for n in hf.walk(nodes):
        k = n.get('k')
        if k == 'vardecl' and n.get('init') is not None and ('&' in (n.get('t') or '') or '*' in (n.get('t') or '')):
            r, p = root(n['init'])
            if isinstance(r, dict) and r.get('k') == 'this' and p:
                alias[tuple(n['id'])] = p[0]
    for n in hf.walk(nodes):
        k = n.get('k')
        tgt = None
        if k == 'asg':
            tgt = n['a']
        elif k == 'un' and n.get('op') in ('++', '--', 'p++', 'p--'):
            tgt = n['e']
        elif k == 'call' and n.get('o') is not None and not n.get('cm'):
            tgt = n['o']
        if tgt is not None:
            r, p = root(tgt)
            if isinstance(r, dict) and r.get('k') == 'this' and p:
                written.add(p[0])
            elif isinstance(r, dict) and r.get('k') == 'ref' and r.get('id') is not None and tuple(r['id']) in alias:
                written.add(alias[tuple(r['id'])])
        if k in ('call', 'ctor'):
            s = short(n.get('fn', '')) if n.get('fn') else ''
            pm = n.get('pm') or ''
            for ai, a in enumerate(n.get('args', [])):
                r, p = root(a)
                if is_other(a) or (isinstance(r, dict) and is_other(r) and not p):
                    g = P.fns.get(n.get('u'))
                    if g is f:
                        continue
                    if k == 'ctor' and base(n.get('t') or '') == f.cls:
                        whole = True          # copy and swap
                    elif k == 'call' and g is not None and g.cls in P.recs and f.cls != g.cls and P.is_a(f.cls, g.cls):
                        pass                  # the assignment of the base class
                    elif k == 'ctor' and P.is_a(f.cls, base(n.get('t') or '')):
                        pass
                    elif s in ('operator==', 'operator!=', 'operator&', 'addressof'):
                        pass
                    else:
                        opaque = True
                # a field or the whole object handed to a function that may change it
                if isinstance(r, dict) and r.get('k') == 'this':
                    mut = ai < len(pm) and pm[ai] in 'mp' if pm else False
                    if p and mut:
                        written.add(p[0])
                    elif not p and a.get('k') != 'defarg' and mut:
                        opaque = True
                if isinstance(r, dict) and r.get('k') == 'ref' and r.get('id') is not None and tuple(r['id']) in alias and ai < len(pm) and pm[ai] in 'mp':
                    written.add(alias[tuple(r['id'])])
            if k == 'call' and n.get('o') is not None and is_this(n['o']):
                g = P.fns.get(n.get('u'))
                if g is not None and g.body is not None and g is not f:
                    if g.cls == f.cls or P.is_a(f.cls, g.cls or ''):
                        written |= {x.lstrip('~') for x in X.touched(g)}
            if s in ('swap',):
                opaque = True
    filtered = {}
    for n in hf.walk(f.body):
        if n.get('k') not in ('rfor', 'for', 'while'):
            continue
        over = other_fields(n['range'] if n['k'] == 'rfor' else [n.get('i'), n.get('c')])
        for fld in over:
            fc = filters(n['b'], lambda a: field_write(a) == fld)
            if fc:
                filtered[fld] = fc
    # direct values
    direct = []
    for i in f.inits or []:
        if i.get('f') and short(i['f']) in fields and i.get('e') is not None:
            direct.append((short(i['f']), i['e'], i))
    for n in hf.walk(f.body):
        if n.get('k') == 'asg' and n.get('op') == '=':
            r, p = root(n['a'])
            if isinstance(r, dict) and r.get('k') == 'this' and len(p) == 1:
                direct.append((p[0], n['b'], n))
    for fld, e, n in direct:
        v = strip(e)
        while isinstance(v, dict) and v.get('k') == 'ctor' and len(v.get('args', [])) == 1:
            v = strip(v['args'][0])
        if isinstance(v, dict) and v.get('k') == 'mem':
            r, p = root(v)
            if is_other(r) and len(p) == 1 and p[0] in fields and p[0] != fld and base(fields[p[0]]['t']) == base(fields.get(fld, {'t': ''})['t']):
                cross[fld] = (p[0], n.get('l') or f.l)
    n = 0
    for fld, rec in sorted(fields.items()):
        if fld not in X.observed(f.cls):
            continue
        site = '%s: %s' % (site0, fld)
        n += 1
        if whole or opaque or '?' in read:
            if fld in read and fld in written and fld not in cross:
                c.obligation('copied', site, True)
            else:
                c.undecide('copied', site)
            continue
        if fld in cross:
            c.obligation('copied', site, False, '%s gets the value of %s' % (fld, cross[fld][0]), f.file, cross[fld][1])
        elif fld in filtered and fld in read:
            kind, l = filtered[fld]
            if kind is None:
                c.undecide('copied', site)
            else:
                c.obligation('copied', site, False, kind, f.file, l)
        elif fld not in written:
            if f.kind == 'ctor' and fld in read:
                c.undecide('copied', site)
            else:
                c.obligation('copied', site, False, 'the field is not copied', f.file, f.l)
        elif fld not in read:
            c.obligation('copied', site, False, 'only a part of the field is copied' if '~' + fld in read else
                         'the field is set, but not from the value that is copied', f.file, f.l)
        else:
            c.obligation('copied', site, True)
    return n


def self_assignment(c, X, f):
    """an assignment that destroys its own content first is not reached when the object is assigned to itself"""
    pid = tuple(f.params[0]['id'])

    def is_other(n):
        n = strip(n)
        return isinstance(n, dict) and n.get('k') == 'ref' and n.get('id') is not None and tuple(n['id']) == pid
    C = cfg.CFG(f)
    destroy, reads = [], []
    for n in C.nodes:
        if n.ast is None:
            continue
        for x in cfg.walk_expr(n.ast):
            if x.get('k') == 'delete' or x.get('k') == 'call' and short(x.get('fn', '')) in ('free', 'clear', 'delete_transducer'):
                t = x.get('e') if x.get('k') == 'delete' else (x.get('o') if x.get('o') is not None and short(x['fn']) != 'free' else (x.get('args') or [None])[0])
                if t is None:
                    continue
                r, p = root(t)
                if isinstance(r, dict) and r.get('k') == 'this' and p:
                    destroy.append((n, p, x))
            if x.get('k') == 'mem' and x.get('b') is not None:
                r, p = root(x)
                if is_other(r) and p:
                    reads.append((n, p))
    site = disp(f.q)
    bad = None

    def same_guard(node, lab):
        a = strip(node.ast) if isinstance(node.ast, dict) else {}
        if a.get('k') == 'bin' and a.get('op') in ('==', '!='):
            s = [strip(a['a']), strip(a['b'])]
            if any(x.get('k') == 'this' for x in s) and any(x.get('k') == 'un' and x.get('op') == '&' and is_other(x['e']) for x in s):
                return lab is (a['op'] == '!=')      # the edge on which the two are known to differ
        if a.get('k') == 'call' and 'addressof' in str(a):
            return None
        return False
    for n, p, x in destroy:
        w = C.before(n, stop_edge=lambda nd, lab: same_guard(nd, lab) is True)
        if w is None:
            continue
        rd = [m for m, q in reads if q[0] == p[0]]
        if not rd:
            continue
        ids = {id(m) for m in rd}
        if any(id(m) in ids for m in C.search([n]).values()):
            bad = x
    if destroy:
        c.obligation('self-assignment', site, bad is None, 'the content is destroyed before it is copied when an object is assigned to itself', f.file,
                     (bad or {}).get('l'))
        return 1
    return 0


def ordered_use(P):
    """names of functor classes and functions used as orders / as equalities by containers and algorithms"""
    types = set()
    for r in P.recs.values():
        types |= {fl['t'] for fl in r['fields']}
    funcs = set()
    for f in P.fns.values():
        types |= {p['t'] for p in f.params}
        if f.body is None:
            continue
        for n in hf.walk([f.body] + [i.get('e') for i in f.inits or []]):
            if n.get('k') == 'vardecl':
                types.add(n.get('t') or '')
            elif n.get('t') and '<' in n['t']:
                types.add(n['t'])
            if n.get('k') in ('call', 'ctor'):
                q = n.get('fn') or n.get('t') or ''
                if short(n.get('fn') or '') in ('sort', 'stable_sort', 'nth_element', 'partial_sort', 'lower_bound', 'upper_bound', 'binary_search', 'min_element',
                                                'max_element', 'merge', 'inplace_merge', 'make_heap', 'push_heap', 'pop_heap') or \
                        n.get('k') == 'ctor' and re.match(r'(const )?std::(set|map|multiset|multimap|priority_queue)<', n.get('t') or ''):
                    for a in n.get('args', []):
                        a = strip(a)
                        while isinstance(a, dict) and (a.get('k') == 'un' and a.get('op') == '&' or a.get('k') == 'ctor' and len(a.get('args', [])) == 1):
                            a = strip(a.get('e') or a['args'][0])
                        if isinstance(a, dict) and a.get('k') == 'ref' and a.get('dk') in ('fn', 'func'):
                            funcs.add(a.get('u') or a.get('n'))
                        elif isinstance(a, dict) and a.get('k') == 'lambda':
                            funcs.add(a.get('u'))
                        elif isinstance(a, dict) and a.get('k') in ('ctor', 'new') and a.get('t'):
                            funcs.add(base(a['t']) + '::operator()')
    return types, funcs


SORTS = ('sort', 'stable_sort', 'partial_sort')


def sorts(c, P):
    """the comparison of every sort is an order; arcs are sorted as the parallel walks over two arc lists expect"""
    weak = [f for f in P.fns.values() if f.name == 'less_than_ignore_weight' and f.body is not None and len(f.params) == 1]
    n = 0
    for f in sorted(P.fns.values(), key=lambda f: (f.q, f.u)):
        if f.body is None:
            continue
        for x in hf.walk(f.body):
            if x.get('k') != 'call' or short(x.get('fn', '')) not in SORTS or not (x.get('fn') or '').startswith('std::'):
                continue
            args = [a for a in x.get('args', []) if a.get('k') != 'defarg']
            want = 3 if short(x['fn']) != 'partial_sort' else 4
            t = args[0].get('t') or ''
            m = re.search(r'normal_iterator<([^,]*?) \*,', t) or re.match(r'(.*?) ?\*$', t)
            elt = base(m.group(1)) if m else None
            cmpf = None
            if len(args) >= want:
                a = strip(args[want - 1])
                while isinstance(a, dict) and (a.get('k') == 'un' and a.get('op') == '&' or a.get('k') == 'ctor' and len(a.get('args', [])) == 1):
                    a = strip(a.get('e') or a['args'][0])
                if a.get('k') == 'lambda':
                    cmpf = {'params': a['params'], 'body': a['body']}
                    site = 'sort in ' + disp(f.q)
                    try:
                        law, asg, L = order.strict_weak(P, cmpf)
                        c.obligation('order', site, law is None, '' if law is None else '%s: %s' % (law, desc(asg, L)), f.file, x.get('l'))
                    except order.Unknown as u:
                        c.undecide('order', site, str(u))
                elif a.get('k') == 'ref':
                    g = [g for g in P.fns.values() if g.q == a.get('n') or g.u == a.get('u')]
                    cmpf = g[0] if len(g) == 1 and g[0].body is not None else None
                else:
                    g = [g for g in P.byq.get(base(a.get('t') or '') + '::operator()', []) if g.body is not None]
                    cmpf = g[0] if len(g) == 1 else None
            elif elt:
                g = [g for g in P.byq.get(elt + '::operator<', []) if g.body is not None]
                cmpf = g[0] if len(g) == 1 else None
            for w in weak:
                part = [fl['n'] for fl in P.recs.get(elt, {'fields': []})['fields'] if base(fl['t']) == w.cls]
                if elt is None or len(part) != 1:
                    continue
                site = 'sort of %s in %s' % (disp(elt), disp(f.q))
                n += 1
                if cmpf is None:
                    c.undecide('sorted by symbols', site)
                    continue
                try:
                    r, L = order.refines(P, cmpf, w, '.' + part[0])
                except order.Unknown as u:
                    c.undecide('sorted by symbols', site, str(u))
                    continue
                c.obligation('sorted by symbols', site, r is None, '' if r is None else 'the order contradicts %s: %s' % (w.name, desc(r, L)), f.file, x.get('l'))
    return n


def desc(asg, L):
    out = []
    for (i, t), v in sorted(asg.items(), key=str):
        out.append('%s%s at %s' % ('abc'[i] if isinstance(i, int) and i < 3 else '', t, v))
    return ', '.join(out)[:220]


def check(c):
    files, skipped = hf.extract_all(hf.sources(), optional=True)
    c.floor('source files', len(files), 100)
    for f, e in skipped:
        c.undecide('copied', f + ': not parsed')
    P = hf.Program(files)
    X = Ctx(P)
    types, funcs = ordered_use(P)
    nc = ns = no = 0
    seen = set()
    eqs, nes, lts = {}, {}, {}
    for f in sorted(P.fns.values(), key=lambda f: (f.q, f.u)):
        if f.body is None or f.file is None:
            continue
        gen = re.sub(r'<.*>', '<>', f.q) + str(f.loc)
        ps = [base(p['t']) for p in f.params]
        one = len(ps) == 1 and f.cls and ps[0] == f.cls and '&' in f.params[0]['t']
        if (f.kind == 'ctor' or f.name == 'operator=') and one and '&&' not in f.params[0]['t'] and f.cls in P.recs:
            if gen in seen:
                continue
            seen.add(gen)
            nc += copies(c, X, f)
            if f.name == 'operator=':
                ns += self_assignment(c, X, f)
            continue
        if f.name == 'operator=' and len(ps) == 1 and f.cls and ps[0] == f.cls and gen not in seen:
            seen.add(gen)
            continue
        pair = None
        if f.ret in ('bool', '_Bool') or f.ret == 'bool':
            if f.cls and len(ps) == 1 and ps[0] == f.cls and f.name in ('operator<', 'operator==', 'operator!=', 'operator>', 'less_than_ignore_weight', 'numerical_cmp'):
                pair = f.name
            elif len(ps) == 2 and ps[0] == ps[1] and (f.name == 'operator()' or f.name in ('operator<', 'operator==', 'operator!=', 'operator>') or
                                                    f.u in funcs or f.q in funcs or f.name in funcs):
                pair = f.name
        if pair is None or gen in seen:
            continue
        seen.add(gen)
        no += 1
        kind = 'order'
        if pair == 'operator==':
            kind = 'equality'
            eqs[f.cls or ps[0]] = f
        elif pair == 'operator!=':
            kind = 'inequality'
            nes[f.cls or ps[0]] = f
        elif pair == 'operator()' and f.u not in funcs and f.q not in funcs and f.name not in funcs:
            cls = f.cls or ''
            s = short(cls)
            used = [t for t in types if re.search(r'\b%s\b' % re.escape(s), t)]
            asorder = any(re.search(r'\b(set|map|multiset|multimap|priority_queue)<', t) and not re.search(r'unordered|hash_', t) for t in used)
            asequal = any(re.search(r'unordered|hash_', t) for t in used)
            if asequal and not asorder:
                kind = 'equality'
            elif not asorder:
                kind = 'either'
        elif pair == 'operator<':
            lts[f.cls or ps[0]] = f
        site = disp(f.q)
        if kind == 'inequality':
            continue
        try:
            if kind == 'either':
                L = order.Laws(P)
                refl = L.search(lambda: not L.holds((0, 0), f)) is not None and L.search(lambda: L.holds((0, 0), f)) is None
                kind = 'equality' if refl else 'order'
            law, asg, L = (order.equality if kind == 'equality' else order.strict_weak)(P, f)
        except order.Unknown as u:
            c.undecide(kind, site, str(u))
            continue
        except RecursionError:
            c.undecide(kind, site, 'recursion')
            continue
        c.obligation(kind, site, law is None, '' if law is None else '%s: %s' % (law, desc(asg, L)), f.file, f.l)
    for cls, e in sorted(eqs.items()):
        for o, rule in ((nes.get(cls), 'inequality'), (lts.get(cls), 'equality and order')):
            if o is None:
                continue
            try:
                r = (order.opposite if rule == 'inequality' else order.agree)(P, e, o)
            except order.Unknown as u:
                c.undecide(rule, disp(o.q), str(u))
                continue
            L = None
            c.obligation(rule, disp(o.q), r is None, 'contradicts operator==' if r is None else 'contradicts operator==: ' + desc(r, L), o.file, o.l)
    for cls, e in sorted(eqs.items()):
        o = lts.get(cls)
        if o is None or not any(re.search(r'\bset<%s>|\bmap<%s,' % (re.escape(cls), re.escape(cls)), t) for t in types):
            continue
        try:
            r = order.separates(P, e, o)
        except order.Unknown as u:
            c.undecide('key', disp(o.q), str(u))
            continue
        c.obligation('key', disp(o.q), r is None, '' if r is None else 'values that are not equal are the same key: ' + desc(r, None), o.file, o.l)
    # the order of transition data refines the order that ignores weights
    for w in P.fns.values():
        if w.name == 'less_than_ignore_weight' and w.body is not None and w.cls in lts and len(w.params) == 1:
            try:
                r, L = order.refines(P, lts[w.cls], w, '')
                c.obligation('refines', disp(lts[w.cls].q), r is None, '' if r is None else 'contradicts %s: %s' % (w.name, desc(r, L)), lts[w.cls].file, lts[w.cls].l)
            except order.Unknown as u:
                c.undecide('refines', disp(w.q), str(u))
    sorts(c, P)
    c.floor('fields copied', nc, 30)
    c.floor('assignments that destroy', ns, 0)
    c.floor('comparison functions', no, 8)


chk.main('C25', check, 'every copy constructor and copy assignment of the library and the tools, per field; every comparison function used as operator<, operator==, '
         'operator!= or as the order of a container or a sort')
