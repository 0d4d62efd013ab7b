"""Replacing transitions by copies of a network: the transitions that are built, as (source, target, weight), each a sum of the roles
o (source of the replaced transition), d (its target), w (its weight), new (the first state added), gs, gt, gw, gf (state, target, weight and
final weight in the network that is copied)."""
import hf
from collections import Counter


def short(q):
    return (q or '').rsplit('::', 1)[-1].split('<')[0]


def strip(n):
    while isinstance(n, dict) and (n.get('k') in ('cast', 'paren', 'defarg') or n.get('k') == 'call' and short(n.get('fn')) == 'Value' and not n.get('args') and 'Weight' in n.get('fn', '') and 'Iterator' not in n.get('fn', '')
                                   or n.get('k') == 'un' and n.get('op') == '*'
                                   or n.get('k') == 'ctor' and len(n.get('args', [])) == 1 and ('Weight' in n.get('fn', '') or n.get('cp') in ('copy', 'move'))):
        n = n['args'][0] if n['k'] == 'ctor' else n['o'] if n['k'] == 'call' else n.get('e')
    return n


class F:
    def __init__(self, f):
        self.f = f
        self.defs, self.up, self.rv, self.lp = {}, {}, {}, {}
        for n in hf.walk(f.body):
            if n.get('k') == 'decl':
                for v in n['vars']:
                    self.defs.setdefault(tuple(v['id']), []).append(v.get('init'))
            elif n.get('k') == 'asg' and n['a'].get('k') == 'ref' and n['a'].get('id') is not None:
                self.defs.setdefault(tuple(n['a']['id']), []).append(n['b'] if n.get('op', '=') == '=' else {'k': 'other'})
            elif n.get('k') == 'un' and ('++' in n['op'] or '--' in n['op']) and n['e'].get('k') == 'ref' and n['e'].get('id') is not None:
                self.up.setdefault(tuple(n['e']['id']), []).append(n)
            elif n.get('k') == 'rfor' and n.get('var'):
                self.rv[tuple(n['var']['id'])] = n
        self.par = {}
        self.link(f.body, None)

    def link(self, n, p):
        if isinstance(n, dict):
            if 'k' in n:
                self.par[id(n)] = p
                p = n
            for v in n.values():
                self.link(v, p)
        elif isinstance(n, list):
            for v in n:
                self.link(v, p)

    def one(self, i):
        d = self.defs.get(i, [])
        return d[0] if len(d) == 1 and i not in self.up else None

    def deref(self, n):
        n = strip(n)
        for _ in range(6):
            if n is None or n.get('k') != 'ref' or n.get('id') is None or self.one(tuple(n['id'])) is None:
                return n
            n = strip(self.one(tuple(n['id'])))
        return n

    def loop_of(self, n):
        """the loop whose body has n as a statement that is always reached, None if there is no such loop"""
        x = n
        p = self.par.get(id(n))
        while p is not None and p.get('k') in ('block', 'expr'):
            x, p = p, self.par.get(id(p))
        return p

    def counter(self, i):
        """what a variable that counts the rounds of a loop over states stands for"""
        d, u = self.defs.get(i, []), self.up.get(i, [])
        if len(d) != 1 or len(u) != 1 or strip(d[0]) is None or strip(d[0]).get('k') != 'int' or strip(d[0]).get('v') != 0:
            return None
        lp = self.loop_of(u[0])
        if lp is None or lp.get('k') != 'rfor' or 'Transducer' not in lp['range'].get('t', ''):
            return None
        return 'o' if any(x.get('k') == 'this' for x in hf.walk(lp['range'])) else 'gs'

    def lin(self, n):
        n = strip(n)
        if n is None:
            return None
        k = n.get('k')
        if k == 'int':
            return Counter({'k': n['v']}) if n['v'] else Counter()
        if k == 'bin' and n['op'] == '+':
            a, b = self.lin(n['a']), self.lin(n['b'])
            return None if a is None or b is None else a + b
        if k == 'ref' and n.get('id') is not None:
            i = tuple(n['id'])
            c = self.counter(i)
            if c:
                return Counter([c])
            d = self.one(i)
            return self.lin(d) if d is not None else None
        if k == 'cond':
            a, b = self.lin(n['a']), self.lin(n['b'])
            return None if a is None or b is None else a if a == b else Counter(['one of two values'])
        r = self.leaf(n)
        return Counter([r]) if r else None

    def leaf(self, n):
        k = n.get('k')
        if k == 'mem':
            m, q = n.get('m'), n.get('n', '')
            if 'substitution_data' in q:
                return {'origin_state': 'o', 'target_state': 'd', 'weight': 'w'}.get(m)
            if 'ArcTpl' in q and m in ('nextstate', 'weight'):
                v = self.deref(n.get('b'))
                t = v.get('fn', '') if v is not None and v.get('k') == 'call' and short(v.get('fn')) == 'Value' else ''
                if not t:
                    return None
                if 'MutableArcIterator' in t:
                    return 'd' if m == 'nextstate' else 'w'
                return 'gt' if m == 'nextstate' else 'gw'
            if m in ('first', 'second') and n.get('b') is not None:
                b = strip(n['b'])
                lp = self.rv.get(tuple(b['id'])) if b is not None and b.get('k') == 'ref' and b.get('id') is not None else None
                if lp is not None and any(x.get('k') == 'mem' and x.get('m') == 'final_weight_map' for x in hf.walk(lp['range'])):
                    return 'gs' if m == 'first' else 'gf'
            return None
        if k == 'call':
            m = short(n.get('fn'))
            if m in ('add_state', 'AddState') and not n.get('args'):
                return 'new'
            if m in ('get_target_state', 'get_weight'):
                side = self.side(n.get('o'))
                return {'g': {'get_target_state': 'gt', 'get_weight': 'gw'}, 'o': {'get_target_state': 'd', 'get_weight': 'w'}}.get(side, {}).get(m)
            if m == 'Value' and 'StateIterator' in n.get('fn', ''):
                return 'gs'
            if m == 'Final':
                a = self.lin((n.get('args') or [None])[0])
                return 'gf' if a == Counter(['gs']) else None
            if m == 'get_final_weight':
                a = self.lin((n.get('args') or [None])[0])
                return 'gf' if a == Counter(['gs']) else None
        return None

    def side(self, n, depth=0):
        """o: a transition of this network, g: of another one"""
        n = strip(n)
        if n is None or depth > 8:
            return None
        if n.get('k') == 'call':
            return self.side(n.get('o') if n.get('o') is not None else (n.get('args') or [None])[0], depth + 1)
        if n.get('k') == 'ref' and n.get('id') is not None:
            i = tuple(n['id'])
            if i in self.rv:
                r = self.rv[i]['range']
                if 'Transducer' in r.get('t', ''):
                    return 'o' if any(x.get('k') == 'this' for x in hf.walk(r)) else 'g'
                return self.side(r, depth + 1)
            d = self.defs.get(i, [])
            if len(d) == 1 and d[0] is not None:
                return self.side(d[0], depth + 1)
            return None
        if n.get('k') in ('mem', 'idx', 'un', 'ctor'):
            x = n.get('b') if n['k'] == 'mem' else n.get('a') if n['k'] == 'idx' else n.get('e') if n['k'] == 'un' else (n.get('args') or [None])[0]
            return self.side(x, depth + 1)
        return None


def show(t):
    nm = {'o': 'source', 'd': 'target', 'w': 'weight', 'new': 'new state', 'gs': 'state of the network', 'gt': 'target in the network', 'gw': 'its weight', 'gf': 'its final weight'}
    return ' / '.join(' + '.join(nm.get(k, str(v)) if k != 'k' else str(v) for k, v in sorted(x.items())) or '0' for x in t)


def S(*a):
    return Counter(a)


ENTER = (S('o'), S('new'), S('w'))
INSIDE = (S('gs', 'new'), S('gt', 'new'), S('gw'))
LEAVE = (S('gs', 'new'), S('d'), S('gf'))


def built(f):
    """[(node, triple or None)]"""
    X = F(f)
    out = []
    for n in hf.walk(f.body):
        if n.get('k') != 'call' or short(n.get('fn')) not in ('add_transition', 'AddArc') or len(n.get('args', [])) < 2:
            continue
        tr = X.deref(n['args'][1])
        if tr is None or tr.get('k') != 'ctor' or len(tr.get('args', [])) < 4:
            out.append((n, None))
            continue
        a = tr['args']
        w, t = (a[2], a[3]) if 'ArcTpl' in tr['fn'] else (a[3], a[0])
        x = (X.lin(n['args'][0]), X.lin(t), X.lin(w))
        out.append((n, None if any(y is None for y in x) else x))
    return X, out


def check(c, f, inplace):
    """obligations for one function that puts a copy of a network in place of a transition"""
    X, out = built(f)
    want = [INSIDE, LEAVE] + ([] if inplace else [ENTER])
    n = 0
    short_q = f.q.rsplit('::', 2)[-2] + '::' + f.name
    for node, t in out:
        site = '%s(%s): transition of the copy' % (short_q, f.params[1]['t'][-24:] if len(f.params) > 1 else '')
        if t is None:
            c.undecide('graph-substituted', site)
            continue
        n += 1
        c.obligation('graph-substituted', site, t in want, 'adds a transition %s' % show(t), f.file, node.get('l'))
    if inplace:
        for x in hf.walk(f.body):
            if x.get('k') == 'asg' and x['a'].get('k') == 'mem' and x['a'].get('m') in ('nextstate', 'weight') and 'ArcTpl' in x['a'].get('n', ''):
                site = '%s(%s): transition replaced (%s)' % (short_q, f.params[1]['t'][-24:], x['a']['m'])
                v = X.lin(x['b'])
                w = S('new') if x['a']['m'] == 'nextstate' else S('w')
                if v is None:
                    c.undecide('graph-substituted', site)
                else:
                    n += 1
                    c.obligation('graph-substituted', site, v == w, 'is given %s' % show((v,)), f.file, x.get('l'))
    elif all(t is not None for _, t in out):
        for w in want:
            c.obligation('graph-substituted', '%s has %s' % (short_q, show(w)), any(t == w for _, t in out), 'no transition %s is added' % show(w), f.file, f.l)
    return n


def data_sites(c, f):
    """the source, target and weight that are recorded for a transition to be replaced"""
    X = None
    n = 0
    for x in hf.walk(f.body):
        if x.get('k') == 'ctor' and short(x.get('fn')) == 'substitution_data' and len(x.get('args', [])) == 4:
            X = X or F(f)
            for i, (w, nm) in enumerate((('o', 'source'), ('d', 'target'), ('w', 'weight'))):
                v = X.lin(x['args'][i])
                site = '%s(%s): %s recorded' % (f.name, f.params[0]['t'][-24:], nm)
                if v is None:
                    c.undecide('graph-substituted', site)
                else:
                    n += 1
                    c.obligation('graph-substituted', site, v == S(w), 'the %s of the transition replaced is recorded as %s' % (nm, show((v,))), f.file, x.get('l'))
    return n


def counters(c, f):
    """a variable that counts states while a loop goes through them is counted up once per state"""
    X = F(f)
    n = 0
    for i, u in X.up.items():
        d = X.defs.get(i, [])
        if len(d) != 1 or strip(d[0]) is None or strip(d[0]).get('k') != 'int':
            continue
        state = None
        for x in hf.walk(f.body):
            a = None
            if x.get('k') == 'ctor' and short(x.get('fn')) in ('HfstBasicTransition', 'substitution_data') or x.get('k') == 'call' and short(x.get('fn')) in (
                    'add_transition', 'is_final_state', 'get_final_weight', 'set_final_weight', 'remove_transition'):
                a = strip((x.get('args') or [None])[0])
            if a is not None and a.get('k') == 'ref' and a.get('id') is not None and tuple(a['id']) == i:
                state = x
        if state is None or len(u) != 1:
            continue
        loops, p, cond = [], X.par.get(id(u[0])), False
        while p is not None:
            if p.get('k') in ('for', 'rfor', 'while', 'do'):
                loops.append(p)
            elif p.get('k') in ('if', 'switch', 'cond') and not loops:
                cond = True
            p = X.par.get(id(p))
        over = [l for l in loops if l['k'] == 'rfor' and 'Transducer' in l['range'].get('t', '')]
        if not over:
            continue
        n += 1
        site = '%s(%s): %s counts the states' % (f.name, ', '.join(p['t'][-16:] for p in f.params[:2]), 'a variable')
        if loops[0] is not over[0]:
            c.obligation('state-number', site, False, 'the number of the state is counted up by an inner loop', f.file, u[0].get('l'))
        elif cond:
            c.undecide('state-number', site)
        else:
            # nothing goes to the next state before the number is counted up
            bad = None
            for x in direct(over[0].get('b') or over[0].get('body')):
                if x.get('k') == 'continue' and (x.get('l') or 0) <= (u[0].get('l') or 0):
                    bad = x
            c.obligation('state-number', site, bad is None, 'a state is passed over without its number being counted', f.file, (bad or u[0]).get('l'))
    return n


def direct(n):
    """the statements of a loop body outside inner loops"""
    if isinstance(n, list):
        for x in n:
            yield from direct(x)
    elif isinstance(n, dict):
        if n.get('k') in ('for', 'rfor', 'while', 'do', 'lambda'):
            return
        if 'k' in n:
            yield n
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from direct(v)
