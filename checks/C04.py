#!/usr/bin/env python3
"""C04: a lookup or path-extraction branch leaves the search state as it found it.

Every backtracking search is a set of mutually recursive functions.  A function that every cycle of calls goes through
(the hub) is interpreted with the others inlined, under the assumption that the recursive calls it makes leave the pinned
variables as they are; at every return, and at the end of every round of a loop that recurses, they must be as they were.
"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import hf, chk
from absint import A, St, Hooks, K, isk, short, contains, root, add, lin

T = ('T',)
OLD = hf.OL
BT = hf.IMPL + 'HfstBasicTransducer.cc'
# (source, functions of the search, what is pinned, returns that matter)
#   a field by name, a parameter by &name; kinds: num (a number), stk (a sequence used at its end), flag (flag settings), set
SEARCHES = [
    ('lookup in optimized transducers', [OLD + 'transducer.cc'], ('hfst_ol::Transducer::', ('get_analyses',)),
     {'current_weight': 'num', 'flag_state': 'flag', 'recursion_depth_left': 'num'}, None),
    ('search for epsilon loops in optimized transducers', [OLD + 'find_epsilon_loops.cc', OLD + 'transducer.cc'], ('hfst_ol::Transducer::', ('find_loop',)),
     {'flag_state': 'flag'}, None),
    ('pmatch', [OLD + 'pmatch.cc'], ('hfst_ol::PmatchTransducer::', ('get_analyses',)),
     {'running_weight': 'num', 'recursion_depth_left': 'num', 'stack_depth': 'num', 'rtn_stacks': 'stks', 'entry_stack': 'stk', 'captures': 'stk',
      'global_flag_state': 'flag', 'local_stack': 'stk', 'flag_state': 'flag', 'max_context_length_remaining': 'num'}, None),
    ('hfst-optimized-lookup', [hf.TOOLS + 'hfst-optimized-lookup.cc'], ('Transducer::', ('get_analyses',)),
     {'statestack': 'stk'}, None),
    ('hfst-optimized-lookup (weighted)', [hf.TOOLS + 'hfst-optimized-lookup.cc'], ('TransducerW::', ('get_analyses',)),
     {'statestack': 'stk', 'current_weight': 'num'}, None),
] + [('extraction of paths (%s)' % n, [hf.IMPL + n + '.cc'], ('hfst::implementations::', ('extract_paths',)),
      {'&fd_state_stack': 'stk', '&spv': 'stk'}, None) for n in ('TropicalWeightTransducer', 'LogWeightTransducer', 'FomaTransducer', 'HfstOlTransducer')] + [
    ('lookup in basic transducers', [BT], ('hfst::implementations::HfstBasicTransducer::', ('lookup',)),
     {'&path_so_far': 'path', '&lookup_index': 'num', '&flag_diacritic_path': 'stk'}, None),
    ('search for epsilon loops in basic transducers', [BT], ('hfst::implementations::HfstBasicTransducer::', ('is_infinitely_ambiguous',)),
     {'&epsilon_path_states': 'set'}, 'false'),
    ('search for epsilon loops during lookup in basic transducers', [BT], ('hfst::implementations::HfstBasicTransducer::', ('is_lookup_infinitely_ambiguous',)),
     {'&epsilon_path_states': 'set', '&index': 'num', '&fds': 'stk'}, 'false'),
    ('search for negative epsilon cycles', [BT], ('hfst::implementations::HfstBasicTransducer::', ('has_negative_epsilon_cycles',)),
     {'&state_weights': 'set'}, 'false'),
    ('extraction of regular expressions (compile-replace)', [BT], ('hfst::implementations::HfstBasicTransducer::', ('find_regexp_paths',)),
     {'&states_visited': 'set', '&path': 'stk'}, None),
]
# pointers to the one object all parts of a search share
SHARED = {'container'}
# a branch that has decided a negative context is abandoned as it is: nothing depends on its state any more
ABANDONED = {'negative_context_success'}


def parts(c):
    if c[0] == 'stk':
        return c[1], c[2], c[3]
    return c, 0, ()


def mk(b, n, items):
    items = tuple(items)
    while n and items and items[0] == ('elt', b, n):
        n, items = n - 1, items[1:]
    return b if n == 0 and not items else ('stk', b, n, items)


def linear(v, k=1, acc=None):
    """sum of atoms"""
    acc = {} if acc is None else acc
    if isk(v) and type(v[1]) in (int, float, bool):
        acc[1] = acc.get(1, 0) + k * v[1]
    elif v[0] == '+':
        linear(v[1], k, acc)
        acc[1] = acc.get(1, 0) + k * v[2]
    elif v[0] == 'op' and v[1] in '+-':
        linear(v[2], k, acc)
        linear(v[3], k if v[1] == '+' else -k, acc)
    else:
        acc[v] = acc.get(v, 0) + k
    return {a: c for a, c in acc.items() if c}


def vague(v):
    return contains_tag(v, ('w', 'mut', 'top', 'deep', 'join', 'modg'))


def contains_tag(v, tags):
    return isinstance(v, tuple) and (v[:1] and v[0] in tags and (v[0] != 'top' or len(v) == 1) or any(contains_tag(x, tags) for x in v))


class A4(A):
    def store(self, s, loc, val, node=None):
        p = self.h.pin(loc)
        if p is not None and p[1] == 'num' and val[0] == 'op':
            val = cancel(val)
        return A.store(self, s, loc, val, node)


def cancel(v):
    """x + a - a, in whatever order, is x"""
    terms = []

    def go(v, k):
        if v[0] == 'op' and v[1] in '+-':
            go(v[2], k)
            go(v[3], k if v[1] == '+' else -k)
        else:
            terms.append((k, v))
    go(v, 1)
    n = len(terms)
    for i in range(len(terms) - 1, 0, -1):
        for j in range(1, i):
            if i < len(terms) and terms[i] == (-terms[j][0], terms[j][1]):
                del terms[i], terms[j]
                break
    if len(terms) == n:
        return v
    r = terms[0][1]
    for k, t in terms[1:]:
        r = ('op', '+' if k == 1 else '-', r, t)
    return r


class H(Hooks):
    def __init__(self, P, name, hubs, scc, pins, touching):
        self.P, self.name, self.hubs, self.scc, self.pins, self.touching = P, name, hubs, scc, pins, touching
        self.fields = {k: v for k, v in pins.items() if k[0] != '&'}
        self.bad = {}
        self.memo = {}
        self.repeated = set()
        self.calls = set()
        self.loops = set()
        self.pinned_params = {}

    def sticky(self, s):
        return (frozenset((t, x) for t, x in s.facts.items() if self.tested(t)),)

    def tested(self, t):
        if t not in self.memo:
            self.memo[t] = any(t == ('in', l[1][1]) or contains(t, l[1]) for l in self.pinned_params if l[0] == 'd') or has_call(t, self.repeated)
        return self.memo[t]

    # --- which locations are pinned
    def pin(self, loc):
        if loc[0] == 'f':
            if loc[2] in self.fields and loc[1][0] != 'v':
                return loc[2], self.fields[loc[2]]
            if loc[1] in self.pinned_params and self.pinned_params[loc[1]][1] == 'path':
                return (self.pinned_params[loc[1]][0], 'num') if loc[2] == 'first' else (self.pinned_params[loc[1]][0], 'stk')
        if loc in self.pinned_params and self.pinned_params[loc][1] != 'path':
            return self.pinned_params[loc]
        return None

    def all(self, s, extra=()):
        ls = [l for l in list(s.mem) if l[0] in ('f', 'v', 'd') and self.pin(l)]
        for l, (n, k) in self.pinned_params.items():
            ls += [('f', l, 'first'), ('f', l, 'second')] if k == 'path' else [l]
        for r in extra:
            ls += [('f', r, n) for n in self.fields]
        return set(ls)

    def inline(self, A, fn):
        return (fn.u in self.scc or fn.u in self.touching) and fn.size < 3000 and len(A.stack) < 9

    def load(self, A, s, loc, node):
        if loc[0] == 'f' and loc[2] in SHARED:
            return ('shared', loc[2])
        return None

    def call(self, A, s, node, fn, recv, args):
        vals, locs = args
        sh = short(fn)
        u = node.get('u')
        if node.get('k') == 'ctor':
            return None
        # the recursive calls: what is pinned stays as it is
        if u in self.hubs and (not node.get('virt') or node.get('qual') or all(getattr(g, 'u', g) in self.hubs for g in self.P.overriders.get(u, ()))):
            self.calls.add((A.fstack[-1].u, node.get('l')))
            before = {l: A.content(s, l) for l in self.all(s, [recv] if recv is not None else [])}
            for l in locs:
                if l is not None and l[0] in ('v', 'f', 'd') and l not in before:
                    before[l] = A.content(s, l)
            out = []
            for s2, v in A.summary_call(node, s, self.P.fns.get(u), fn, recv, vals, locs):
                for l in self.pinned_params:
                    if l in before and self.pinned_params[l][1] == 'path' and s2.mem.get(l) != s.mem.get(l):
                        s2 = s2.copy()
                        s2.mem.pop(l, None)
                        if l in s.mem:
                            s2.mem[l] = s.mem[l]
                        for n in [x for x in s2.mem if x[0] == 'f' and x[1] == l]:
                            del s2.mem[n]
                        for n in [x for x in s.mem if x[0] == 'f' and x[1] == l]:
                            s2.mem[n] = s.mem[n]
                for l, c in before.items():
                    if A.content(s2, l) != c:
                        s2 = A.rawstore(s2, l, c)
                out.append((s2, v))
            self.count += 1
            return out
        # calls of virtual functions of the search: every version
        if u in self.scc and node.get('virt') and not node.get('qual') and self.P.overriders.get(u) and len(A.stack) < 9:
            out = []
            for g in [u] + list(self.P.overriders[u]):
                f = self.P.fns.get(getattr(g, 'u', g))
                if f is not None and f.body is not None and all(x.u != f.u for x in A.fstack):
                    out += A.inline_fn(node, s, f, recv, vals, locs)
            return out or None
        if u not in self.scc and u not in self.touching and len(vals) <= 3 and (node.get('cm') or node.get('st') or recv is None or u in self.P.fns and not node.get('virt') and not any('()' not in q[1] for q in A.mods(u)) or any(fn == q for q, _ in self.repeated)) and \
                sh not in ('get_values', 'assign_values', 'apply_operation', 'is_diacritic') and (recv is None or not self.pin(recv)) and \
                not any(x in 'mp' for x in node.get('pm') or '') and not fn.startswith('std::') and not node.get('op') and u is not None and \
                not any(q[0] == 'm' and short(q[1]) in self.fields for q in A.mods(u)):
            # a test made before and after a recursive call has the same result
            ws = tuple(A.load(s, v[1], node) if v[0] == 'refto' else A.simp(s, v) for v in vals)
            if not any(vague(w) for w in ws):
                return [(s, ('m', fn, recv) + ws)]
        if sh == 'is_diacritic' and node.get('st') and len(vals) == 1:
            v = A.load(s, vals[0][1], node) if vals[0][0] == 'refto' else A.simp(s, vals[0])
            return [(s, ('m', fn, v))]
        if recv is None:
            return None
        ot = (node.get('o') or {}).get('t') or ''
        if sh == 'apply_operation':
            s1, t = A.opaque(s, node)
            c = A.content(s, recv)
            yes = A.store(s, recv, ('applied', c, node.get('nid')), node)
            tp = self.top(A, s, recv)
            if tp is not None:
                l, (b, n, items) = tp
                items = items[:-1] + (('applied', items[-1]),) if items else (('applied', ('elt', b, n + 1)),)
                yes = A.store(s, l, mk(b, n if items and parts(A.content(s, l))[2] else n + 1, items), node)
            return [(yes, K(True)), (s, K(False))]
        if sh == 'get_values' and not vals:
            return [(s, ('fdv', A.content(s, recv)))]
        if sh == 'assign_values' and vals:
            v = A.load(s, vals[0][1], node) if vals[0][0] == 'refto' else vals[0]
            return [(A.store(s, recv, v[1] if v[0] == 'fdv' else ('mut', node.get('nid'), v), node), ('top',))]
        if recv[0] == 'i' and recv[1][0] == 'f' and self.fields.get(recv[1][2]) == 'stks' and sh in ('push_back', 'pop_back', 'back'):
            # a sequence of stacks, taken together
            recv = recv[1]
        p = self.pin(recv)
        if p is None or recv[0] == 'top':
            return None
        kind = p[1]
        c = A.content(s, recv)
        if kind in ('stk', 'stks'):
            b, n, items = parts(c)
            if sh in ('push_back', 'push', 'emplace_back', 'emplace') and len(items) < 6:
                v = ('itm', node.get('nid'), A.ctx)
                if vals and node.get('args') and len(vals) == 1:
                    w = A.load(s, vals[0][1], node) if vals[0][0] == 'refto' else A.simp(s, vals[0])
                    v = w
                s2 = A.store(s, recv, mk(b, n, items + (v,)), node)
                s2.mem.pop(('back', recv), None)
                return [(s2, ('top',))]
            if sh in ('pop_back', 'pop') and n < 6:
                s2 = A.store(s, recv, mk(b, n, items[:-1]) if items else mk(b, n + 1, ()), node)
                s2.mem.pop(('back', recv), None)
                gone = ('top', recv, (n, len(items)))
                if any(A.under(l, gone) for l in s2.mem):
                    s2 = s2.copy()
                    for l in list(s2.mem):
                        if A.under(l, gone):
                            del s2.mem[l]
                return [(s2, ('top',))]
            if sh in ('back', 'top'):
                if any('LocalVariables' in x for x in (ot, node.get('t') or '')):
                    return [(s, ('refto', ('top', recv, (n, len(items)))))]
                if not items and not (node.get('t') or '').endswith('>') and 'vector' not in (node.get('t') or ''):
                    return [(s, ('elt', b, n + 1))]
                s2 = s.copy()
                s2.mem[('back', recv)] = items[-1] if items else ('elt', b, n + 1)
                return [(s2, ('refto', ('back', recv)))]
            if sh in ('size', 'empty') and kind == 'stk':
                z = add(('sz', b), len(items) - n)
                return [(s, z)] if sh == 'size' else [(s, K(False))] if items else None
        if kind == 'set':
            if sh in ('insert', 'emplace') and len(vals) == 1:
                v = A.simp(s, A.load(s, vals[0][1], node) if vals[0][0] == 'refto' else vals[0])
                return [(A.store(s, recv, c if self.inset(c, v) else ('ins', c, v), node), ('r', node.get('nid'), A.ctx))]
            if sh == 'erase' and len(vals) == 1:
                v = A.simp(s, A.load(s, vals[0][1], node) if vals[0][0] == 'refto' else vals[0])
                if self.inset(c, v):
                    return [(A.store(s, recv, self.without(c, v), node), ('r', node.get('nid'), A.ctx))]
                return [(A.store(s, recv, ('mut', node.get('nid'), c), node), ('r', node.get('nid'), A.ctx))]
            if sh in ('count', 'find', 'end', 'begin', 'contains', 'at'):
                return [(s, ('r', node.get('nid'), A.ctx))]
        return None

    def inset(self, c, v):
        while c[0] in ('ins', 'st'):
            if (c[2] if c[0] == 'ins' else c[2]) == v:
                return True
            c = c[1]
        return False

    def without(self, c, v):
        if c[2] == v:
            return c[1]
        return (c[0], self.without(c[1], v)) + c[2:]

    def top(self, A, s, loc):
        """the pinned sequence whose last element loc is"""
        if loc[0] == 'back' and self.pin(loc[1]):
            return loc[1], parts(A.content(s, loc[1]))
        return None

    # --- verdicts
    def compare(self, kind, was, now, s):
        """None the same, else (definite, message)"""
        if was == now:
            return None
        if s.mem.get(('joined',)):
            return False, 'states were joined'
        if kind == 'num':
            d = linear(('op', '-', now, was))
            if not d:
                return None
            if vague(now) or vague(was):
                return False, ''
            signs = {c > 0 for c in d.values()}
            if len(signs) > 1:
                return False, ''
            return True, 'is %s' % ('not decreased again' if signs == {True} else 'decreased once too often')
        if kind in ('stk', 'stks'):
            b, n, items = parts(now)
            b0, n0, items0 = parts(was)
            if b != b0 or vague(now) or vague(was):
                return False, ''
            if len(items) - n > len(items0) - n0:
                return True, 'is not popped again'
            if len(items) - n < len(items0) - n0:
                return True, 'is popped once too often'
            return True, 'has another last element'
        if kind == 'flag':
            x = now
            while x[0] == 'applied':
                x = x[1]
            if x == was and now != was:
                return True, 'keeps the settings of a flag diacritic of the branch'
            return False, ''
        if kind == 'set':
            x = now
            while x[0] in ('ins', 'st'):
                x = x[1]
            if x == was:
                return True, 'keeps a state of the branch'
            return False, ''
        return False, ''

    def back(self, A, n, h, backs):
        for b in backs:
            self.loops.add((A.fstack[-1].u, n.get('l')))
            for l in self.all(b) | self.all(h):
                if l[0] == 'f' and l[1][0] == 'top' and l[1][2] != (0, 0):
                    continue
                p = self.pin(l)
                r = self.compare(p[1], A.content(h, l), A.content(b, l), b)
                if r and r[0] and not self.abandoned(b):
                    self.note('loop', p[0], A.fstack[-1], n.get('l'), r[1], b)

    def abandoned(self, s):
        for k, v in s.facts.items():
            for a in ABANDONED:
                if has_field(k, a) and v[3] in (True, 1, None) and (v[0] or 0) >= 1 or has_field(k, a) and v[3] in (True, 1):
                    return True
        return any(has_field(l, a) and v in (K(True), K(1)) for l, v in s.mem.items() for a in ABANDONED)

    def note(self, where, name, f, line, msg, s):
        self.bad.setdefault((where, name, f.u), (f, line, msg, s.where()))


def has_call(t, tests):
    return isinstance(t, tuple) and (len(t) > 2 and t[0] == 'm' and any(f == t[1] and len(vs) <= len(t) - 3 and all(v is None or K(v) == w for v, w in zip(vs, t[3:])) for f, vs in tests)
                                     or any(has_call(x, tests) for x in t))


def cval(n):
    while n.get('k') == 'cast':
        n = n['e']
    return n['v'] if type(n.get('v')) in (int, bool, str) else None


def changes(n, names, fns):
    if n.get('k') == 'call' and n.get('u') in fns:
        return True
    x = n.get('o') if n.get('k') == 'call' and not n.get('cm') else n.get('a') if n.get('k') == 'asg' else n.get('e') if n.get('k') == 'un' and n.get('op') in ('++', '--', 'p++', 'p--') else None
    return x is not None and any(y.get('k') == 'mem' and y.get('m') in names or y.get('k') == 'ref' and y.get('n') in names for y in hf.walk(x))


def has_field(t, n):
    return isinstance(t, tuple) and (len(t) == 3 and t[0] == 'f' and t[2] == n or any(has_field(x, n) for x in t))


def cyclic(nodes, edges):
    seen, done = set(), set()

    def go(x):
        seen.add(x)
        for y in edges[x]:
            if y not in nodes:
                continue
            if y in seen and y not in done:
                return True
            if y not in seen and go(y):
                return True
        done.add(x)
        return False
    return any(x not in seen and go(x) for x in sorted(nodes))


def search_of(P, start):
    """the functions that are on a cycle of calls with start"""
    edges = {}

    def out(u):
        if u not in edges:
            f = P.fns.get(u)
            es = set()
            if f is not None and f.body is not None:
                for n in hf.walk(f.body):
                    if n.get('k') == 'call' and n.get('u'):
                        es.add(n['u'])
                        if n.get('virt') and not n.get('qual'):
                            es |= {getattr(g, 'u', g) for g in P.overriders.get(n['u'], ())}
            edges[u] = {e for e in es if e in P.fns}
        return edges[u]
    fwd, todo = set(), [start]
    while todo:
        u = todo.pop()
        if u not in fwd:
            fwd.add(u)
            todo += out(u)
    back = {start} if start in edges[start] else set()
    back.add(start)
    ch = True
    while ch:
        ch = False
        for u in fwd:
            if u not in back and edges[u] & back:
                back.add(u)
                ch = True
    scc = fwd & back
    return scc, {u: edges[u] & scc for u in scc}


def run_search(c, P, S):
    title, srcs, (prefix, names), pins, which = S
    hub0 = [f for f in P.fns.values() if f.q in [prefix + n for n in names] and f.body is not None]
    starts = []
    for f in hub0:
        scc, edges = search_of(P, f.u)
        if len(scc) > 1 or f.u in edges[f.u]:
            starts.append((f, scc, edges))
    if not starts:
        c.undecide('search', title)
        return
    f, scc, edges = max(starts, key=lambda x: len(x[1]))
    # a function that all cycles go through
    if cyclic(scc - {f.u}, edges):
        one = sorted((u for u in scc if not cyclic(scc - {u}, edges)), key=lambda u: (-sum(u in e for e in edges.values()), u))
        if one:
            hubs = {one[0]}
        else:
            hubs = {f.u}
            rest = scc - hubs
            while cyclic(rest, edges):
                u = max(sorted(rest), key=lambda u: sum(u in edges[x] for x in rest))
                hubs.add(u)
                rest.discard(u)
    else:
        hubs = {f.u}
    fields = {k for k in pins if k[0] != '&'}
    methods = {'push_rtn_call', 'rtn_stack_pop'}

    def touches(g):
        return any(n.get('k') == 'mem' and n.get('m') in fields for n in hf.walk(g.body)) if g.body is not None else False
    direct = {u for u, g in P.fns.items() if touches(g) and g.kind not in ('ctor', 'dtor')}
    pinp = {k[1:] for k in pins if k[0] == '&'}
    # helpers called from the search that get hold of a pinned parameter or field
    touching = set()
    mod = A(P)
    todo = list(scc)
    seen = set(scc)
    while todo:
        u = todo.pop()
        for n in hf.walk(P.fns[u].body):
            if n.get('k') == 'call' and n.get('u') in P.fns and n['u'] not in seen:
                g = P.fns[n['u']]
                if g.body is None:
                    continue
                if g.u in direct and g.size < 60 or any(short(q[1]) in fields for q in mod.mods(g.u) if q[0] == 'm') or pinp and any('&' in p['t'] or '*' in p['t'] for p in g.params):
                    touching.add(g.u)
                    seen.add(g.u)
                    todo.append(g.u)
    # tests on which it depends whether something pinned is changed
    repeated = set()
    for u in scc | touching:
        for n in hf.walk(P.fns[u].body):
            if n.get('k') in ('if', 'cond', 'while', 'for', 'do') and n.get('c') is not None and any(changes(x, fields | pinp, touching - scc) for x in hf.walk([n.get('a'), n.get('b')])):
                for x in hf.walk(n['c']):
                    if x.get('k') == 'call' and x.get('u') not in scc and x.get('fn') and not x['fn'].startswith('std::'):
                        repeated.add((x['fn'], tuple(cval(y) for y in x.get('args', []))))

    memo = {}

    def run(u, keep):
        # what is called from u, directly or from what is interpreted along with it
        seen, todo = set(), [u]
        while todo:
            for v in edges_all(P, todo.pop()):
                if v not in seen:
                    seen.add(v)
                    if v not in keep:
                        todo.append(v)
        k = u, frozenset(seen & keep)
        if k not in memo:
            memo[k] = run1(u, keep)
        return memo[k]

    def run1(u, keep):
        g = P.fns[u]
        h = H(P, title, keep, scc, pins, touching)
        for p in g.params:
            k = pins.get('&' + p['n'])
            if k:
                l = ('v', p['id'])
                if p['t'].rstrip().endswith('*'):
                    l = ('d', ('in', l))
                h.pinned_params[l] = (p['n'], k)
        h.repeated = repeated
        a = A4(P, h)
        a.mark_joins = True
        r = a.run(g, St())
        ent = {}
        nret = 0
        same = not h.bad
        for s, v in r['ret']:
            v = a.simp(s, v)
            if which == 'false':
                if v == K(True) or v == K(1):
                    continue
                if not isk(v):
                    continue
            nret += 1
            for l in h.all(s):
                if l[0] == 'f' and l[1][0] == 'top' and l[1][2] != (0, 0):
                    continue
                name, kind = h.pin(l)
                if l[0] == 'v' and not byref(g, l):
                    continue
                res = h.compare(kind, ('in', l), a.content(s, l), s)
                ent.setdefault(name, []).append(res)
                if res and res[0] and not h.abandoned(s):
                    same = False
                if res and res[0] and not h.abandoned(s):
                    h.note('return', name, g, g.l, res[1], s)
        return h, ent, nret, same

    # functions that keep what is pinned, given that the others do: they need not be followed at their calls
    keep = set(scc)
    dropped = {}
    done = False
    while not done:
        done = True
        for u in sorted(keep - hubs):
            try:
                hh, ee, nn, ok = run(u, keep)
            except RecursionError:
                hh, ok = None, False
            if not ok:
                dropped[u] = hh
                keep.discard(u)
                done = False
    clear = {}
    for hu in sorted(keep):
        g = P.fns[hu]
        try:
            h, ent, nret, same = run(hu, keep)
        except RecursionError:
            c.undecide('search', title)
            continue
        names_ = {n.lstrip('&') for n in pins}
        for n in sorted(names_):
            site = '%s: %s, %s' % (title, g.name, n)
            b = [(k, x) for k, x in h.bad.items() if k[1] == n]
            if b:
                for (where, _, fu), (ff, line, msg, w) in sorted(b, key=lambda x: x[0][0]):
                    c.obligation('restored', site + ' (' + ('at the end of a round of a loop in ' if where == 'loop' else 'when it returns, ') + ff.name + ')', False,
                                 '%s: %s %s when %s' % (title, n, msg, 'the next transition is tried' if where == 'loop' else ff.name + ' returns'), ff.file, line,
                                 key='restored|%s|%s|%s' % (title, n, ff.name), path=w)
            elif any(x and not x[0] for x in ent.get(n, [])):
                clear[hu, n] = False
                c.undecide('restored', site)
            else:
                c.obligation('restored', site, True, '', g.file, g.l)
        for cu, line in sorted(h.calls, key=lambda x: (x[0], x[1] or 0)):
            c.obligation('recursive call', '%s: %s:%s' % (title, P.fns[cu].name, line), True, '', P.fns[cu].file, line)
        c.cov.setdefault('searches', {})['%s, %s' % (title, g.name)] = dict(functions=len(scc), hub=hu in hubs, recursive_calls=len(h.calls), loops=len(h.loops), returns=nret)
    # what a function leaves behind must be put right by those that call it
    above = {}
    for u in scc:
        for v in edges_all(P, u):
            above.setdefault(v, set()).add(u)
    for u, h in sorted(dropped.items()):
        users, todo = set(), [u]
        while todo:
            for x in above.get(todo.pop(), ()):
                if x not in users:
                    users.add(x)
                    if x not in keep:
                        todo.append(x)
        for (where, n, fu), (ff, line, msg, w) in sorted(h.bad.items() if h else ()):
            site = '%s: %s, %s' % (title, P.fns[u].name, n)
            if all(clear.get((x, n), True) for x in users & keep):
                c.obligation('put right by the caller', site, True, '', ff.file, line)
            else:
                c.obligation('restored', site, False, '%s: %s %s when %s, and what calls it does not put it right' % (
                    title, n, msg, 'the next transition is tried' if where == 'loop' else ff.name + ' returns'), ff.file, line,
                    key='restored|%s|%s|%s' % (title, n, ff.name), path=w)
    return True


def edges_all(P, u):
    f = P.fns.get(u)
    es = set()
    if f is not None and f.body is not None:
        for n in hf.walk(f.body):
            if n.get('k') in ('call', 'ctor') and n.get('u') in P.fns:
                es.add(n['u'])
                if n.get('virt') and not n.get('qual'):
                    es |= {getattr(g, 'u', g) for g in P.overriders.get(n['u'], ())}
    return es


def byref(g, l):
    return any(('v', p['id']) == l and p['t'].rstrip().endswith('&') for p in g.params)


def check(c):
    progs = {}
    n = 0
    for S in SEARCHES:
        k = tuple(S[1])
        if k not in progs:
            try:
                progs[k] = hf.Program(list(k))
            except FileNotFoundError:
                progs[k] = None
        if progs[k] is None:
            c.undecide('search', S[0])
            continue
        n += bool(run_search(c, progs[k], S))
    c.floor('searches', n, 6)


if __name__ == '__main__':
    chk.main('C04', check, 'every backtracking search of the library and of hfst-optimized-lookup: every recursive call, every loop around one and every return')
