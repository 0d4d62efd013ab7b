#!/usr/bin/env python3
"""C03: an operation of HfstTransducer means the same whatever the implementation type: every type dispatches to the
same backend operation with the same operands, and every backend operation applies the right primitive of its library."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import hf, chk, netalg, subst
from absint import A, St, Hooks, K, isk, short, contains, root, mkeq
from htype import *
from netalg import Cell

T = ('T',)
KINDS = ['SFST_TYPE', 'TROPICAL_OPENFST_TYPE', 'LOG_OPENFST_TYPE', 'FOMA_TYPE']
# operations that legitimately take different routes on different types (read by hand): the converted copy is what is
# handed over, or a type has a harmonisation variant of its own
ROUTE = {'extract_random_paths', 'n_best', 'insert_freely', 'substitute', 'compose'}
SAME = {'delete_foma': 'delete_transducer'}
# documented meaning of the public operations in terms of the backend interface
SPEC = {'concatenate': 'concatenate', 'disjunct': 'disjunct', 'intersect': 'intersect', 'subtract': 'subtract', 'invert': 'invert',
        'reverse': 'reverse', 'input_project': 'extract_input_language', 'output_project': 'extract_output_language',
        'repeat_star': 'repeat_star', 'repeat_plus': 'repeat_plus', 'repeat_n': 'repeat_n', 'repeat_n_to_k': None,
        'repeat_n_minus': 'repeat_le_n', 'optionalize': 'optionalize', 'minimize': 'minimize', 'determinize': 'determinize',
        'remove_epsilons': 'remove_epsilons', 'is_automaton': 'is_automaton', 'is_cyclic': 'is_cyclic', 'number_of_states': 'number_of_states',
        'number_of_arcs': 'number_of_arcs', 'push_labels': 'push_labels', 'push_weights': 'push_weights', 'set_final_weights': 'set_final_weights',
        'transform_weights': 'transform_weights', 'has_weights': 'has_weights', 'get_alphabet': 'get_alphabet', 'compare': 'are_equivalent',
        'n_best': 'n_best', 'prune': 'prune', 'extract_random_paths': 'extract_random_paths', 'extract_paths': 'extract_paths',
        'compose': 'compose', 'operator=': 'copy', 'insert_to_alphabet': 'insert_to_alphabet', 'remove_from_alphabet': 'remove_from_alphabet',
        'get_first_input_symbols': 'get_first_input_symbols', 'get_initial_input_symbols': 'get_initial_input_symbols'}


class H(TypeHooks):
    def __init__(self, P):
        super().__init__(P)
        self.calls, self.nid, self.origin = [], {}, {}
        if not hasattr(P, 'fnnames'):
            P.fnnames = {n['u']: n['n'] for f in P.fns.values() for n in hf.walk(f.body) if n.get('k') in ('ref', 'mem', 'fnref') and n.get('u') and n.get('n')}

    def inline(self, A, fn):
        return fn.cls == HT and fn.name in ('apply',) or super().inline(A, fn)

    def load(self, A, s, loc, node):
        if loc[0] == 'f' and loc[2] in MEMBERS and loc[1][0] == 'f' and loc[1][2] == 'implementation':
            X = loc[1][1]
            o = 'this' if X == T else 'operand' if X[0] == 'v' and X[1] in self.params else 'other'
            self.origin[A.content(s, loc)] = ('IMPL', o)
        return None

    def call(self, A, s, node, fn, recv, args):
        if not fn and A.cv is not None and A.cv[0] == 'fnref':
            fn = self.P.fnnames.get(A.cv[1], '')
        cl = fn.rsplit('::', 1)[0]
        if cl in BACK:
            nm = short(fn)
            self.nid[node.get('nid')] = nm
            self.calls.append((SAME.get(nm, nm), tuple(norm(self, v) for v in args[0])))
        return super().call(A, s, node, fn, recv, args)


def norm(h, v):
    if isinstance(v, tuple) and v:
        if v in h.origin:
            return h.origin[v]
        if v[0] == 'in':
            return ('in', norm(h, v[1]))
        if v[0] in ('f', 'fld') and len(v) > 2 and v[2] in MEMBERS:
            return ('IMPL', norm(h, v[1]))
        if v[0] in ('f', 'fld') and len(v) > 2 and isinstance(v[2], str) and v[2].endswith('_interface'):
            return ('IFACE',)
        if v[0] in ('r', 'mut', 'o', 'tmp', 'rd'):
            return (v[0], h.nid.get(v[1])) if v[0] == 'r' and len(v) > 1 else (v[0],)
        return tuple(norm(h, x) for x in v)
    return v


def opaque(t):
    return isinstance(t, tuple) and (t[:1] and t[0] in ('mut', 'w', 'join', 'top', 'deep', 'p', 'rd', 'o', 'tmp') or any(opaque(x) for x in t))


def sig(f):
    return '%s(%s)' % (f.q, ', '.join(p['t'].replace('hfst::', '').replace('class ', '')[-26:] for p in f.params[:3] if '(*)' not in p['t']))


# ---------------------------------------------------------------- backend primitives
# operation -> per backend the primitive that realises it; order: operand order matters
PRIM = {
    'concatenate': (dict(Trop='Concat', Log='Concat', Foma='fsm_concat', Sfst='operator+'), True),
    'disjunct': (dict(Trop='Union', Log='Union', Foma='fsm_union', Sfst='operator|'), False),
    'intersect': (dict(Trop='IntersectFst Intersect', Log='IntersectFst Intersect', Foma='fsm_intersect', Sfst='operator&'), False),
    'subtract': (dict(Trop='Difference DifferenceFst', Log='Difference DifferenceFst', Foma='fsm_minus', Sfst='operator/'), True),
    'compose': (dict(Trop='Compose ComposeFst', Log='Compose ComposeFst', Foma='fsm_compose', Sfst='operator||'), True),
    'invert': (dict(Trop='Invert InvertFst', Log='Invert InvertFst', Foma='fsm_invert', Sfst='switch_levels'), False),
    'reverse': (dict(Trop='Reverse', Log='Reverse', Foma='fsm_reverse', Sfst='reverse'), False),
    'repeat_star': (dict(Trop='ClosureFst:STAR', Log='ClosureFst:STAR', Foma='fsm_kleene_star', Sfst='kleene_star'), False),
    'repeat_plus': (dict(Trop='ClosureFst:PLUS', Log='ClosureFst:PLUS', Foma='fsm_kleene_plus'), False),
    'repeat_n': (dict(Trop='Concat', Log='Concat', Foma='fsm_concat_n', Sfst='operator+'), False),
    'optionalize': (dict(Trop='Union', Log='Union', Foma='fsm_optionality', Sfst='operator|'), False),
    'extract_input_language': (dict(Trop='ProjectFst:INPUT', Log='ProjectFst:INPUT', Foma='fsm_upper', Sfst='lower_level'), False),
    'extract_output_language': (dict(Trop='ProjectFst:OUTPUT', Log='ProjectFst:OUTPUT', Foma='fsm_lower', Sfst='upper_level'), False),
    'minimize': (dict(Trop='Minimize', Log='Minimize', Foma='fsm_minimize', Sfst='minimise'), False),
    'determinize': (dict(Trop='Determinize', Log='Determinize', Foma='fsm_determinize', Sfst='determinise'), False),
    'remove_epsilons': (dict(Trop='RmEpsilonFst RmEpsilon', Log='RmEpsilonFst RmEpsilon', Foma='fsm_epsilon_remove', Sfst='remove_epsilons'), False),
    'push_labels': (dict(Trop='Push', Log='Push'), False),
    'push_weights': (dict(Trop='Push', Log='Push'), False),
    'prune': (dict(Trop='Prune'), False),
    'n_best': (dict(Trop='ShortestPath'), False),
    'create_empty_transducer': (dict(Foma='fsm_empty_set'), False),
    'create_epsilon_transducer': (dict(Foma='fsm_empty_string'), False),
}
CLS = {'Trop': 'TropicalWeightTransducer', 'Log': 'LogWeightTransducer', 'Foma': 'FomaTransducer', 'Sfst': 'SfstTransducer'}
VOCAB = set()
for d, _ in PRIM.values():
    for v in d.values():
        VOCAB |= {x.split(':')[0] for x in v.split(' ')}


def primcalls(P, f, depth=3, seen=None):
    """(name, constants, node, function) of the library primitives called from f and its helpers in the same class or file"""
    seen = seen if seen is not None else set()
    out = []
    if f.u in seen or depth < 0:
        return out
    seen.add(f.u)
    for n in hf.walk(f.body):
        if n.get('k') not in ('call', 'ctor'):
            continue
        q = n.get('fn', '')
        nm = short(q)
        g = P.fns.get(n.get('u'))
        lib = q.startswith('fst::') or q.startswith('SFST::') or nm.startswith('fsm_') or n.get('k') == 'ctor' and 'fst::' in q
        nm = nm.split('<')[0] if not nm.startswith('operator') else nm
        if lib and nm in VOCAB:
            cs = {short(x['n']) for a in n.get('args', []) for x in hf.walk(a) if x.get('k') in ('ref', 'enum', 'cst') and 'n' in x and short(x['n']).isupper()}
            out.append((nm, cs, n, f))
        elif g is not None and (g.cls == f.cls or g.file == f.file) and g.name not in PRIM:
            out += primcalls(P, g, depth - 1, seen)
    return out


def derived(f):
    """variable id -> set of parameter indexes its value is derived from (flow-insensitive)"""
    d = {p['id']: {i} for i, p in enumerate(f.params)}
    def ids(e):
        s = set()
        for x in hf.walk(e):
            if x.get('k') == 'ref' and x.get('id') in d:
                s |= d[x['id']]
        return s
    for _ in range(4):
        ch = False
        for n in hf.walk(f.body):
            tgt = src = None
            if n.get('k') == 'decl':
                for v in n.get('vars', []):
                    if v.get('init') is not None:
                        s = ids(v['init'])
                        if s - d.get(v['id'], set()):
                            d.setdefault(v['id'], set()).update(s)
                            ch = True
            elif n.get('k') == 'var' and n.get('init') is not None:
                s = ids(n['init'])
                if s - d.get(n['id'], set()):
                    d.setdefault(n['id'], set()).update(s)
                    ch = True
            elif n.get('k') == 'call':
                # an object filled by a library call from its other arguments
                src = set()
                for a in n.get('args', []):
                    src |= ids(a)
                for i, a in enumerate(n.get('args', [])):
                    if src and a.get('k') == 'ref' and (n.get('pm') or '')[i:i + 1] == 'p' and 'Fst' in a.get('t', '') and not d.get(a.get('id')):
                        d[a['id']] = set(src)
                        ch = True
        if not ch:
            break
    return d, ids


def primitives(c):
    P = hf.Program([hf.IMPL + x + '.cc' for x in CLS.values()])
    k = 0
    for op, (spec, order) in sorted(PRIM.items()):
        for b, want in sorted(spec.items()):
            alts = [x.split(':') for x in want.split(' ')]
            for f in P.fns.values():
                if f.name != op or short(f.cls or '') != CLS[b]:
                    continue
                if op in ('disjunct',) and len(f.params) > 1 and not f.params[1]['t'].rstrip().endswith('*'):
                    continue
                calls = primcalls(P, f)
                site = '%s::%s uses %s' % (CLS[b], op, want)
                hit = [x for x in calls if any(x[0] == a[0] for a in alts)]
                if hit:
                    bad = None
                    for nm, cs, n, g in hit:
                        for a in alts:
                            if a[0] == nm and len(a) > 1:
                                got = {x.rsplit('_', 1)[-1] for x in cs} & {'STAR', 'PLUS', 'INPUT', 'OUTPUT'}
                                if got and got != {a[1]}:
                                    bad = (got, n, g)
                    if bad:
                        c.obligation('primitive', site, False, 'applies %s' % ', '.join(sorted(bad[0])), bad[2].file, bad[1]['l'])
                    else:
                        k += 1
                        c.obligation('primitive', site, True)
                elif calls:
                    n, g = calls[0][2], calls[0][3]
                    c.obligation('primitive', site, False, 'applies %s instead' % ', '.join(sorted({x[0] for x in calls})), g.file, n['l'])
                else:
                    c.undecide('primitive', site, 'no library primitive called')
                if order and hit and len(f.params) >= 2:
                    d, ids = derived(f)
                    for nm, cs, n, g in hit:
                        if g is not f:
                            continue
                        ops = ([n['obj']] if n.get('obj') and nm.startswith('operator') else []) + n.get('args', [])
                        if len(ops) < 2:
                            continue
                        x, y = ids(ops[0]), ids(ops[1])
                        s2 = '%s::%s operand order' % (CLS[b], op)
                        if x == {0} and y == {1}:
                            c.obligation('operand-order', s2, True)
                        elif 0 not in x and x == {1} and y == {0}:
                            c.obligation('operand-order', s2, False, 'the operands are exchanged', f.file, n['l'])
                        else:
                            c.undecide('operand-order', s2, '%s %s' % (x, y))
    c.floor('primitive uses', k, 45)


# ---------------------------------------------------------------- what an operation builds
def semantics(P):
    """the library primitives as functions on networks"""
    def inplace(f):
        # F(MutableFst *a, const Fst &b): a := f(a, b)
        def g(I, n, recv, a):
            if len(a) >= 2 and isinstance(a[0], Cell) and isinstance(a[1], Cell):
                a[0].net = f(a[0].net, a[1].net)
                return None
            raise netalg.Unknown('operands')
        return g

    def three(f):
        # F(a, b, out *) or a delayed FFst(a, b)
        def g(I, n, recv, a):
            if len(a) < 2 or not isinstance(a[0], Cell) or not isinstance(a[1], Cell):
                raise netalg.Unknown('operands')
            v = f(a[0].net, a[1].net)
            if n['k'] == 'ctor':
                return Cell(v)
            if len(a) > 2 and isinstance(a[2], Cell):
                a[2].net = v
                return None
            raise netalg.Unknown('operands')
        return g

    def binary(f):
        # values: operators and foma functions
        def g(I, n, recv, a):
            x = ([recv] if isinstance(recv, Cell) else []) + [y for y in a if isinstance(y, Cell)]
            if len(x) != 2:
                raise netalg.Unknown('operands')
            return Cell(f(x[0].net, x[1].net))
        return g

    def unary(f):
        def g(I, n, recv, a):
            x = ([recv] if isinstance(recv, Cell) else []) + [y for y in a if isinstance(y, Cell)]
            if len(x) != 1:
                raise netalg.Unknown('operands')
            return Cell(f(x[0].net))
        return g

    def self1(f):
        # F(MutableFst *a) or a delayed FFst(a)
        def g(I, n, recv, a):
            if n['k'] == 'ctor':
                return Cell(f(a[0].net, a)) if a and isinstance(a[0], Cell) else None
            if a and isinstance(a[0], Cell):
                if len(a) > 1 and isinstance(a[1], Cell):
                    a[1].net = f(a[0].net, a)
                else:
                    a[0].net = f(a[0].net, a)
                return None
            raise netalg.Unknown('operands')
        return g

    def enum(a):
        for x in a[1:]:
            if isinstance(x, tuple) and x[0] == 'enum':
                return x[1].rsplit('_', 1)[-1]
        raise netalg.Unknown('constant')

    def relabel(x, a):
        m = []
        for y in a[1:3]:
            if not isinstance(y, list):
                raise netalg.Unknown('relabelling')
            m.append(tuple(y))
        return ('relabel', x) + tuple(m)

    def closure(x, a):
        e = enum(a)
        return ('star', x) if e == 'STAR' else ('plus', x)

    def npower(I, n, recv, a):
        if not isinstance(a[0], Cell) or not isinstance(a[1], int):
            raise netalg.Unknown('power')
        return Cell(netalg.power(a[0].net, a[1]))

    def mnpower(I, n, recv, a):
        if not isinstance(a[0], Cell) or not isinstance(a[1], int) or not isinstance(a[2], int):
            raise netalg.Unknown('power')
        r = netalg.EMPTY
        for i in range(a[1], a[2] + 1):
            r = netalg.union(r, netalg.power(a[0].net, i))
        return Cell(r)
    na = netalg
    fst = {'Concat': inplace(na.cat), 'Union': inplace(na.union), 'Invert': self1(lambda x, a: na.inv(x)), 'InvertFst': self1(lambda x, a: na.inv(x)),
           'Reverse': self1(lambda x, a: ('reverse', x)), 'Project': self1(lambda x, a: ('project', enum(a), x)),
           'ProjectFst': self1(lambda x, a: ('project', enum(a), x)), 'ClosureFst': self1(closure), 'Closure': self1(closure),
           'RelabelFst': self1(relabel), 'Relabel': self1(relabel),
           'Compose': three(lambda x, y: ('compose', x, y)), 'ComposeFst': three(lambda x, y: ('compose', x, y)),
           'Difference': three(lambda x, y: ('subtract', x, y)), 'DifferenceFst': three(lambda x, y: ('subtract', x, y)),
           'Intersect': three(lambda x, y: na.comm('intersect', x, y)), 'IntersectFst': three(lambda x, y: na.comm('intersect', x, y)),
           'ConcatFst': three(na.cat), 'UnionFst': three(na.union)}
    foma = {'fsm_concat': binary(na.cat), 'fsm_union': binary(na.union), 'fsm_minus': binary(lambda x, y: ('subtract', x, y)),
            'fsm_intersect': binary(lambda x, y: na.comm('intersect', x, y)), 'fsm_compose': binary(lambda x, y: ('compose', x, y)),
            'fsm_invert': unary(na.inv), 'fsm_reverse': unary(lambda x: ('reverse', x)), 'fsm_kleene_star': unary(lambda x: ('star', x)),
            'fsm_kleene_plus': unary(lambda x: ('plus', x)), 'fsm_optionality': unary(lambda x: na.union(x, na.EPS)),
            'fsm_concat_n': npower, 'fsm_concat_m_n': mnpower, 'fsm_upper': unary(lambda x: ('project', 'INPUT', x)),
            'fsm_lower': unary(lambda x: ('project', 'OUTPUT', x)), 'fsm_empty_string': lambda I, n, r, a: Cell(na.EPS), 'fsm_empty_set': lambda I, n, r, a: Cell(na.EMPTY),
            'fsm_cross_product': binary(lambda x, y: ('cross', x, y)), 'fsm_priority_union_upper': binary(lambda x, y: ('priority', x, y)),
            'fsm_shuffle': binary(lambda x, y: na.comm('shuffle', x, y)), 'fsm_complement': unary(lambda x: ('negate', x))}
    made = {'create_epsilon_transducer': lambda I, n, r, a: Cell(na.EPS), 'create_empty_transducer': lambda I, n, r, a: Cell(na.EMPTY)}
    sfst = {'operator+': binary(na.cat), 'operator|': binary(na.union), 'operator&': binary(lambda x, y: na.comm('intersect', x, y)),
            'operator/': binary(lambda x, y: ('subtract', x, y)), 'operator||': binary(lambda x, y: ('compose', x, y)),
            'switch_levels': unary(na.inv), 'kleene_star': unary(lambda x: ('star', x)), 'reverse': unary(lambda x: ('reverse', x))}
    return dict(fst, **made), dict(foma, **made), dict(sfst, **made)


NOOP = {'RmEpsilon', 'RmEpsilonFst', 'ArcSort', 'ArcSortFst', 'Encode', 'EncodeFst', 'Decode', 'DecodeFst', 'Minimize', 'Determinize', 'DeterminizeFst', 'Connect',
        'TopSort', 'Copy', 'copy', 'expand_arcs', 'fsm_copy', 'fsm_minimize', 'fsm_determinize', 'fsm_epsilon_remove', 'fsm_topsort', 'fsm_sort_arcs', 'VectorFst',
        'minimise', 'determinise', 'fsm_coaccessible', 'fsm_accessible'}


def unkid(x):
    """the relabelling of unknown to identity on both sides"""
    return ('relabel', x, (('pair', 1, 2),), (('pair', 1, 2),))


def built(c):
    """what every backend operation builds, as a network made of its operands"""
    P = hf.Program([hf.IMPL + x + '.cc' for x in CLS.values()])
    sems = semantics(P)
    n = 0
    a, b = frozenset('1'), frozenset('2')
    exp = {'concatenate': [(None, frozenset(['12']))], 'disjunct': [(None, frozenset('12'))], 'intersect': [(None, netalg.comm('intersect', a, b))],
           'subtract': [(None, ('subtract', a, b))], 'compose': [(None, ('compose', a, b))], 'invert': [(None, ('invert', a))], 'reverse': [(None, ('reverse', a))],
           'repeat_star': [(None, ('star', a))], 'repeat_plus': [(None, ('plus', a))], 'optionalize': [(None, frozenset(['', '1']))],
           'repeat_n': [(k, frozenset(['1' * k])) for k in range(4)], 'repeat_le_n': [(k, frozenset('1' * i for i in range(k + 1))) for k in range(4)]}
    for b1, cl in sorted(CLS.items()):
        sem = sems[0] if b1 in ('Trop', 'Log') else sems[1] if b1 == 'Foma' else sems[2]
        for f in sorted(P.fns.values(), key=lambda f: f.l):
            if short(f.cls or '') != cl or f.body is None:
                continue
            if f.name in exp:
                cases = exp[f.name]
            elif f.name in ('extract_input_language', 'extract_output_language'):
                w = ('project', 'INPUT' if 'input' in f.name else 'OUTPUT', a)
                cases = [(None, unkid(w) if b1 in ('Trop', 'Log') else w)]
            else:
                continue
            nets = [p for p in f.params if p['t'].rstrip().endswith('*')]
            ints = [p for p in f.params if 'int' in p['t'] and p not in nets]
            if len(nets) + len(ints) != len(f.params) or len(nets) > 2 or len(ints) > 1 or (cases[0][0] is not None) != (len(ints) == 1):
                continue
            for k, want in cases:
                site = '%s::%s%s builds' % (cl, f.name, '' if k is None else ' %d' % k)
                I = netalg.I(P, sem, NOOP, f.cls)
                cells = [Cell(x) for x in (a, b)]
                try:
                    r = I.run(f, [k if p in ints else cells[nets.index(p)] for p in f.params])
                except (netalg.Unknown, netalg.Thrown) as e:
                    c.undecide('builds', site, repr(e))
                    continue
                if not isinstance(r, Cell):
                    c.undecide('builds', site)
                    continue
                got = netalg.unedit(r.net)
                if got != want and netalg.edited(r.net):
                    c.undecide('builds', site, 'edited state by state')
                    continue
                n += 1
                c.obligation('builds', site, got == want, 'builds %s where the operation is %s' % (netalg.show(r.net), netalg.show(want)), f.file, f.l)
    m = 0
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.l)):
        if f.name == 'substitute' and f.body is not None and len(f.params) == 3 and 'VectorFst' in f.params[2]['t'] and short(f.cls or '') in (CLS['Trop'], CLS['Log']):
            m += subst.check(c, f, True)
    c.floor('transitions built when a network is substituted', m, 1)
    c.floor("backend operations built up from their operands", n, 25)


def composite(c, P):
    """operations of HfstTransducer that are made of other operations"""
    na = netalg
    a, b = frozenset('1'), frozenset('2')

    def method(f, two=False):
        def g(I, n, recv, args):
            if not isinstance(recv, Cell):
                raise na.Unknown('object')
            x = [y for y in args if isinstance(y, Cell)]
            if two and not x:
                raise na.Unknown('operand')
            recv.net = f(recv.net, x[0].net) if two else f(recv.net)
            return recv
        return g

    def rep(f):
        def g(I, n, recv, args):
            ks = args[:f.__code__.co_argcount - 1]
            if not isinstance(recv, Cell) or not all(isinstance(k, int) for k in ks):
                raise na.Unknown('count')
            recv.net = f(recv.net, *ks)
            return recv
        return g

    def upto(x, k, m=0):
        r = na.EMPTY
        for i in range(m, k + 1):
            r = na.union(r, na.power(x, i))
        return r
    base = {'concatenate': method(na.cat, True), 'disjunct': method(na.union, True), 'compose': method(lambda x, y: ('compose', x, y), True),
            'intersect': method(lambda x, y: na.comm('intersect', x, y), True), 'subtract': method(lambda x, y: ('subtract', x, y), True),
            'minus': method(lambda x, y: ('subtract', x, y), True),
            'invert': method(na.inv), 'reverse': method(lambda x: ('reverse', x)), 'repeat_star': method(lambda x: ('star', x)), 'repeat_plus': method(lambda x: ('plus', x)),
            'optionalize': method(lambda x: na.union(x, na.EPS)), 'input_project': method(lambda x: ('project', 'INPUT', x)),
            'output_project': method(lambda x: ('project', 'OUTPUT', x)), 'negate': method(lambda x: ('negate', x)),
            'repeat_n': rep(lambda x, k: na.power(x, k)), 'repeat_n_minus': rep(lambda x, k: upto(x, k)),
            'repeat_n_to_k': rep(lambda x, k, m: upto(x, m, k)), 'repeat_n_plus': rep(lambda x, k: na.cat(na.power(x, k), ('star', x)))}
    # the case of no flag diacritics
    base['insert_missing_diacritics_to_alphabet_from'] = lambda I, n, recv, args: ('none',)
    base['substitute'] = method(lambda x: x if isinstance(x, tuple) and x[0] == 'substituted' else ('substituted', x))
    comp = lambda x, y: ('compose', x, y)
    prio = lambda x, y: na.union(x, comp(('negate', ('project', 'INPUT', x)), y))
    noop = {'optimize', 'minimize', 'determinize', 'remove_epsilons', 'prune_alphabet', 'push_weights', 'push_labels', 'convert', 'set_name', 'set_property',
            'insert_to_alphabet', 'remove_from_alphabet', 'add_symbol_to_alphabet'}
    um, em = ('sym', '@_UNKNOWN_SYMBOL_@', '@_MARK_@'), ('sym', '@_EPSILON_SYMBOL_@', '@_MARK_@')
    cross = comp(na.cat(comp(a, ('star', um)), ('star', em)), na.cat(comp(('star', na.inv(um)), b), ('star', na.inv(em))))
    want = {'cross_product': [((), ('substituted', cross))], 'negate': [((), ('subtract', ('star', ('sym',) + ('@_IDENTITY_SYMBOL_@',) * 2), a))],
            'repeat_n_plus': [((k,), na.cat(frozenset(['1' * k]), ('star', a))) for k in (1, 2, 3)],
            'repeat_n_to_k': [((k, m), frozenset('1' * i for i in range(k, m + 1))) for k, m in ((0, 1), (1, 2), (1, 3), (2, 2), (2, 4))],
            'priority_union': [((), prio(a, b))],
            'lenient_composition': [((), prio(comp(a, b), a))],
            'subtract': [], 'minus': []}
    n = 0
    for f in sorted(P.fns.values(), key=lambda f: f.l):
        if f.cls != HT or f.name not in want or f.body is None:
            continue
        for ks, w in want[f.name]:
            nets = [p for p in f.params if ishfst(p['t'])]
            ints = [p for p in f.params if p['t'] in ('unsigned int', 'int')]
            if len(ints) != len(ks) or len(nets) > 1:
                continue
            site = '%s%s is made of' % (sig(f), ' %s' % (ks,) if ks else '')
            I = netalg.I(P, {k: v for k, v in base.items() if k != f.name}, noop, HT, inplace=True)
            this = Cell(a)
            args = [Cell(b) if p in nets else ks[ints.index(p)] if p in ints else None for p in f.params]
            try:
                r = I.run(f, args, this)
            except (na.Unknown, na.Thrown) as e:
                c.undecide('made of', site, repr(e))
                continue
            got = [na.unedit(x.net) for x in (this, r) if isinstance(x, Cell)]
            if any(x != w for x in got) and (na.edited(this.net) or isinstance(r, Cell) and na.edited(r.net)):
                c.undecide('made of', site, 'edited state by state')
                continue
            n += 1
            c.obligation('made of', site, all(x == w for x in got),
                         'leaves %s where the operation is %s' % (na.show(this.net), na.show(w)), f.file, f.l)
    c.floor('composite operations', n, 4)


def check(c):
    P = hf.Program([hf.LIB + 'HfstTransducer.cc', hf.LIB + 'HfstApply.cc'])
    TY = types(P)
    nd = ns = 0
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.l)):
        if f.cls != HT or f.name == 'apply':
            continue
        rows, fin, base = {}, {}, {}
        pt = [p for p in f.params if p['t'].replace('const ', '').rstrip(' &').endswith('ImplementationType')]
        ht = [p for p in f.params if ishfst(p['t'])]
        for t in KINDS:
            if t not in TY:
                continue
            h = H(P)
            h.params = {p['id'] for p in ht}
            a = A(P, h)
            s = St()
            s.mem[('f', T, 'type')] = K(TY[t])
            for p in pt:
                s.mem[('v', p['id'])] = K(TY[t])
            for p in ht:
                s.mem[('f', ('v', p['id']), 'type')] = K(TY[t])
                s.facts[mkeq(('addr', ('v', p['id'])), ('addr', T))] = (0, 0, frozenset(), None)
            r = a.run(f, s)
            rows[t] = sorted(set(h.calls), key=repr)
            st = set()
            for s1, v in r['ret']:
                for l, val in s1.mem.items():
                    if l[0] == 'f' and l[2] in MEMBERS and l[1] == ('f', T, 'implementation') and val != ('in', l):
                        st.add(repr(norm(h, val)))
            fin[t] = st
        act = {t: r for t, r in rows.items() if r}
        if not act:
            continue
        nd += 1
        site = sig(f)
        names = {t: sorted({x[0] for x in r}) for t, r in act.items()}
        ops = {t: [x for x in n if x != 'delete_transducer'] for t, n in names.items()}
        if f.name in SPEC and SPEC[f.name] and f.acc != 'private':
            for t, n in ops.items():
                want = SPEC[f.name]
                if f.name == 'insert_freely' or f.name == 'substitute':
                    continue
                if n and want not in n and not [x for x in n if x.startswith(want)]:
                    other = [x for x in n if x in SPEC.values() or x in PRIM]
                    if other:
                        c.obligation('operation', '%s on %s' % (site, t), False, 'performs the backend operation %s instead of %s' % (
                            ', '.join(other), want), f.file, f.l)
                    else:
                        c.undecide('operation', '%s on %s' % (site, t), repr(n))
                elif n:
                    ns += 1
                    c.obligation('operation', '%s on %s' % (site, t), True)
        if f.name in ROUTE:
            c.undecide('same-on-every-type', site, 'type-specific route, operation name checked only')
            continue
        if len({repr(n) for n in names.values()}) > 1:
            maj = max((repr(n) for n in names.values()), key=lambda x: sum(repr(y) == x for y in names.values()))
            odd = [t for t, n in names.items() if repr(n) != maj]
            if len(odd) * 2 < len(names):
                t = odd[0]
                c.obligation('same-on-every-type', site, False, '%s calls %s where the other types call %s' % (t, names[t], maj), f.file, f.l)
            else:
                c.undecide('same-on-every-type', site, repr(names)[:100])
            continue
        if len({repr(r) for r in act.values()}) > 1:
            maj = max((repr(r) for r in act.values()), key=lambda x: sum(repr(y) == x for y in act.values()))
            odd = [t for t, r in act.items() if repr(r) != maj]
            r = act[odd[0]]
            if not any(opaque(x[1]) for r1 in act.values() for x in r1 if repr(x) not in maj or r1 is r):
                dif = [x for x in r if repr(x) not in maj][:2]
                c.obligation('same-on-every-type', site, False, '%s hands over different operands: %s' % (odd[0], dif), f.file, f.l)
            else:
                c.undecide('same-on-every-type', site, 'operands')
            continue
        c.obligation('same-on-every-type', site, True)
        fa = {t: fin[t] for t in act}
        if len({repr(sorted(x)) for x in fa.values()}) > 1:
            maj = max((repr(sorted(x)) for x in fa.values()), key=lambda x: sum(repr(sorted(y)) == x for y in fa.values()))
            odd = [t for t, x in fa.items() if repr(sorted(x)) != maj]
            if len(odd) * 2 < len(fa):
                c.obligation('result-kept', site, False, '%s keeps another result: %s, other types %s' % (odd[0], sorted(fa[odd[0]])[:2], maj), f.file, f.l)
            else:
                c.undecide('result-kept', site)
        elif any(fa.values()):
            c.obligation('result-kept', site, True)
    c.floor('dispatching operations', nd, 40)
    c.floor('operations matched to their documented meaning', ns, 45)
    primitives(c)
    built(c)
    composite(c, P)


chk.main('C03', check, 'every operation is interpreted with the type tag fixed to each implementation type; the set of backend operations called, '
         'their operands and the object kept as the result must agree between types and with the documented operation; each backend operation '
         'must apply the right primitive of its library, with the operands in order')
