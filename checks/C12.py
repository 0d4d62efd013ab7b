#!/usr/bin/env python3
"""C12: the commands of the xfst compiler respect the stack of networks.

Every command is interpreted abstractly from an unknown stack.  The contents of the stack are a
term: the stack as it was when the command was entered, the number of networks taken from it and
the networks pushed since.
"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import hf, chk
from absint import A, St, Hooks, K, short, contains, add, mkeq

T = ('T',)
XC = 'hfst::xfst::XfstCompiler'
STACK = ('f', T, 'stack_')
IN = ('in', STACK)
FAIL = ('xfst_fail', 'xfst_lesser_fail')


def isstack(t):
    return (t or '').replace('const ', '').startswith('std::stack<')


def isqueue(t):
    return (t or '').replace('const ', '').startswith('std::queue<')


def isnet(t):
    return 'HfstTransducer *' in (t or '')


def parts(c):
    """(base, number popped from it, networks pushed on it)"""
    if c[0] == 'stk':
        return c[1], c[2], c[3]
    return c, 0, ()


def mk(b, n, items):
    items = tuple(items)
    while n and items and items[0] == ('elt', b, n):
        n, items = n - 1, items[1:]
    return b if n == 0 and not items else ('stk', b, n, items)


def size(c):
    b, n, items = parts(c)
    return add(('sz', b), len(items) - n)


def held(v):
    """values stored in a variable or a container"""
    while v[0] == 'st':
        yield v[3]
        v = v[1]
    yield v


RANGES = {}


def part(v, x):
    """v is (an element or a member of) what field x held on entry"""
    while v[0] in ('fld', 'elof', 'elt', 'st', 'p', 'd', 'in', 'f', 'i', 'r', 'it', 'new') and v != ('f', T, x):
        if v[0] == 'in' and contains(v[1], ('f', T, x)):
            return True
        if v[0] == 'it' or v[0] == 'r':
            return v[1] in RANGES and RANGES[v[1]] == x
        v = v[1]
        if not isinstance(v, tuple):
            return False
    return v[0] == 'in' and contains(v[1], ('f', T, x)) and v[1] != ('f', T, 'stack_')


def on(c, v):
    b, n, items = parts(c)
    return v in items or v[0] == 'elt' and v[1] == b and v[2] > n


class H(Hooks):
    def __init__(self, P, users, readers, tries, entries):
        self.P, self.users, self.readers, self.tries, self.entries = P, users, readers, tries, entries
        self.acc = {}

    def inline(self, A, fn):
        return fn.u in self.users and len(A.stack) < 4 and fn.size < 400 or super().inline(A, fn)

    def note(self, A, s, node, rule, ok, msg=''):
        k = (A.fstack[-1], node.get('l'), rule)
        self.acc.setdefault(k, []).append((ok, msg, s.where()))

    def nonempty(self, A, s, c):
        b, n, items = parts(c)
        if items:
            return True
        d = A.decide(s, ('<', K(0), A.simp(s, size(c))))
        if d is None and b == IN and not any(f.u not in self.entries for f in A.fstack[:1]):
            return False
        return d

    def call(self, A, s, node, fn, recv, args):
        vals, locs = args
        sh = short(fn)
        for v in list(vals):
            if v[0] in ('r', 'elt', 'addr') and s.mem.get(('del', v)) == K(1):
                self.note(A, s, node, 'deleted', False, 'a network that has been deleted is used')
        if recv is not None and recv[0] == 'd' and s.mem.get(('del', recv[1])) == K(1) and sh[:1] != '~':
            self.note(A, s, node, 'deleted', False, 'a network that has been deleted is used')
        if node.get('nid') in self.tries and node.get('u') not in self.users:
            for t in self.tries[node['nid']]:
                A.throws[-1].append((s, t))
        if sh in FAIL and node.get('o') is not None:
            return [(s.with_tr(fail=1, fl=node.get('l')), ('top',))]
        if node.get('u') in self.readers:
            c = A.content(s, STACK)
            out = []
            for s2, v in A.summary_call(node, s, self.P.fns[node['u']], fn, recv, vals, locs):
                if A.content(s2, STACK) != c:
                    s2 = A.store(s2, STACK, c, node)
                out.append((s2, v))
            return out
        if recv is not None and isqueue((node.get('o') or {}).get('t')):
            b, n, items = parts(A.content(s, recv))
            new = A.decide(s, ('<', K(0), A.simp(s, ('sz', b)))) is False or b[0] != 'in' and b[0] != 'w'
            if sh in ('size', 'empty'):
                z = A.simp(s, K(len(items)) if new else ('sz', A.content(s, recv)))
                return [(s, z if sh == 'size' else mkeq(z, K(0)))]
            if sh == 'front' and new and items:
                return [(s, items[0])]
            if sh == 'pop' and new and items:
                return [(A.store(s, recv, mk(b, n, items[1:]), node), ('top',))]
            if sh == 'push' and vals and len(items) < 6:
                v = A.simp(s, A.load(s, vals[0][1], node) if vals[0][0] == 'refto' else vals[0])
                return [(A.store(s, recv, mk(b, n, items + (v,)), node), ('top',))]
        if recv is None or not isstack((node.get('o') or {}).get('t')):
            for v in vals:
                if v[0] == 'refto':
                    v = A.simp(s, A.load(s, v[1], node))
                if v[0] in ('elt', 'r', 'addr'):
                    if s.mem.get(('out', v)) == K(1):
                        s.mem[('out', v)] = ('top',)     # handed over
                    if fn.startswith('std::') or node.get('k') == 'ctor':
                        s.mem[('held', v)] = K(1)
            return None
        c = A.content(s, recv)
        b, n, items = parts(c)
        own = recv == STACK
        if sh == 'size':
            return [(s, A.simp(s, size(c)))]
        if sh == 'empty':
            return [(s, mkeq(A.simp(s, size(c)), K(0)))]
        if sh in ('top', 'pop'):
            self.note(A, s, node, 'guarded', self.nonempty(A, s, c), 'the stack may be empty here')
            if sh == 'top':
                return [(s, items[-1] if items else ('elt', b, n + 1))]
            if not items and n > 6:
                return None
            v = items[-1] if items else ('elt', b, n + 1)
            s2 = A.store(s, recv, mk(b, n, items[:-1]) if items else mk(b, n + 1, ()), node)
            if own and ('held', v) not in s.mem:
                s2 = A.store(s2, ('out', v), K(1), node)
            return [(s2, ('top',))]
        if sh == 'push' and vals:
            v = vals[0]
            if v[0] == 'refto':
                v = A.load(s, v[1], node)
            v = A.simp(s, v)
            if own:
                self.note(A, s, node, 'owned once', not on(c, v), 'a network that is on the stack is pushed again')
                if s.mem.get(('del', v)) == K(1):
                    self.note(A, s, node, 'deleted', False, 'a network that has been deleted is pushed')
            if len(items) > 6:
                return None
            s2 = A.store(s, recv, mk(b, n, items + (v,)), node)
            return [(A.store(s2, ('out', v), K(0), node) if own else s2, ('top',))]
        return None

    def delete(self, A, s, node, val):
        v = A.simp(s, val)
        if v[0] not in ('elt', 'r', 'addr', 'in'):
            return None
        if s.mem.get(('del', v)) == K(1):
            self.note(A, s, node, 'deleted', False, 'a network is deleted twice')
        s2 = s.copy()
        s2.mem[('del', v)] = K(1)
        return s2


def check(c):
    P = hf.Program([hf.PARS + 'XfstCompiler.cc'])
    ms = {f.u: f for f in P.fns.values() if f.cls == XC and f.body is not None}
    c.floor('methods', len(ms), 100)
    owners = [f['n'] for f in P.recs[XC]['fields'] if isnet(f['t']) and f['n'] not in ('stack_', 'names_')]

    def closure(base):
        res = set(base)
        while True:
            more = {f.u for f in ms.values() if f.u not in res and any(n.get('k') == 'call' and n.get('u') in res for n in hf.walk(f.body))}
            if not more:
                return res
            res |= more

    def names(f):
        return any(n.get('k') == 'mem' and n.get('m') == 'stack_' for n in hf.walk(f.body))

    def writes(f):
        seen = total = 0
        for n in hf.walk(f.body):
            if n.get('k') == 'mem' and n.get('m') == 'stack_':
                total += 1
            if n.get('k') == 'call' and (n.get('o') or {}).get('m') == 'stack_' and n['o'].get('k') == 'mem' and short(n.get('fn', '')) in ('top', 'size', 'empty'):
                seen += 1
        return seen < total
    named = {u for u, f in ms.items() if names(f)}
    users = closure(named)
    writers = closure({u for u in named if writes(ms[u])})
    takers = {u for u, f in ms.items() if any(isnet(p['t']) for p in f.params) and any(n.get('k') == 'mem' and n.get('m') in owners for n in hf.walk(f.body))}
    readers = {u for u in users - writers if ms[u].name != 'top'}
    called = {n['u'] for f in ms.values() for n in hf.walk(f.body) if n.get('k') == 'call' and n.get('u') in ms}
    entries = {u for u, f in ms.items() if f.acc == 'public' or u not in called}
    tries = {}
    for f in ms.values():
        for t in hf.walk(f.body):
            if t.get('k') == 'try':
                hs = [h['t'] for h in t['h'] if h.get('t')]
                for n in hf.walk(t['b']):
                    if n.get('k') == 'call' and n.get('o') is not None and 'HfstTransducer' in (n['o'].get('t') or '') and n.get('nid') is not None and not n.get('cm'):
                        tries[n['nid']] = hs
    for f in ms.values():
        for n in hf.walk(f.body):
            if n.get('k') == 'rfor' and n['range'].get('k') == 'mem':
                RANGES[n['nid']] = n['range'].get('m')
    notes = {}
    nt = 0
    for f in sorted(ms.values(), key=lambda f: f.l):
        if f.kind == 'ctor' or f.u not in entries or f.name in ('prompt', 'top'):
            continue
        if f.u not in users:
            continue
        h = H(P, {u for u in users if u in named or u in writers} | takers, readers - {f.u}, tries, entries)
        a = A(P, h)
        a.peel = True
        try:
            r = a.run(f, St())
        except RecursionError:
            c.undecide('guarded', f.q)
            continue
        nt += 1
        for (g, line, rule), l in h.acc.items():
            notes.setdefault((g.u, line, rule), []).extend((ok, m, w, f) for ok, m, w in l)
        if f.kind == 'dtor':
            continue
        site = '%s(%s)' % (f.q, ', '.join(p['t'] for p in f.params))
        good, bad = {}, {}

        def put(rule, ok, msg, s):
            good[rule] = good.get(rule, 0) + 1
            if not ok and rule not in bad:
                bad[rule] = (msg, s.where())
        for s, v in r['ret']:
            st = a.content(s, STACK)
            b, n, items = parts(st)
            for k2, v2 in s.mem.items():
                if isinstance(k2, tuple) and k2[0] == 'del' and v2 == K(1):
                    put('no deleted network', not on(st, k2[1]), 'a network that has been deleted is on the stack when the command returns', s)
            put('each once', len(set(items)) == len(items), 'the same network is on the stack twice', s)
            for l, v2 in s.mem.items():
                o = [x for x in owners if isinstance(l, tuple) and l[0] in ('f', 'i') and contains(l, ('f', T, x))]
                if o and isinstance(v2, tuple):
                    for x in held(v2):
                        if x[0] in ('r', 'elt', 'addr'):
                            put('single owner', not on(st, x), 'a network is on the stack and belongs to %s too' % o[0], s)
            for it in items:
                o = [x for x in owners if part(it, x)]
                if o and s.mem.get(('f', T, o[0])) != K(0):
                    put('single owner', False, 'a network that belongs to %s is pushed on the stack' % o[0], s)
            if b == IN and s.tr.get('fail') and all(x[0] in ('elt', 'addr') for x in items) and not any(('held', ('elt', b, i)) in s.mem for i in range(1, n + 1)):
                put('failure', n == 0, 'the command fails (line %s) and the stack is not as it was: %d network%s taken, %d pushed' % (s.tr.get('fl'), n, 's' * (n != 1), len(items)), s)
            # networks taken from the stack go somewhere
            outs = [k2[1] for k2, v2 in s.mem.items() if isinstance(k2, tuple) and k2[0] == 'out' and v2 == K(1) and k2[1][0] == 'elt' and contains(k2[1], STACK)]
            gone = [v for v in outs if not on(st, v) and ('del', v) not in s.mem
                    and not any(contains(v2, v) for l, v2 in s.mem.items() if l != STACK and isinstance(v2, tuple) and contains(l, T) and l[0] in ('f', 'i') and l != STACK)]
            if outs:
                put('accounted for', not gone, 'a network taken from the stack is neither deleted nor kept' + (' (the command fails, line %s)' % s.tr.get('fl') if s.tr.get('fail') else ''), s)
        for rule in sorted(good):
            m, w = bad.get(rule, ('', None))
            c.obligation(rule, site, rule not in bad, m, f.file, f.l, path=w)
    for (u, line, rule), l in sorted(notes.items(), key=lambda x: (ms[x[0][0]].l if x[0][0] in ms else 0, x[0][1] or 0, x[0][2])):
        g = P.fns[u]
        w = next((x for x in l if x[0] is False), None)
        if w is not None:
            c.obligation(rule, g.q, False, '%s (%s)' % (w[1], w[3].name), g.file, line, key='%s:%s' % (rule, g.q), path=w[2])
        elif all(x[0] is True for x in l):
            c.obligation(rule, '%s:%s' % (g.q, line), True, '', g.file, line)
        else:
            c.undecide(rule, '%s:%s' % (g.q, line))
    c.floor('commands interpreted', nt, 80)


chk.main('C12', check, 'every method of XfstCompiler that can reach the stack of networks, from an unknown stack; every top() and pop(), every exit')
