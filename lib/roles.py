"""Role provenance: which fields of a transition (input, output, target, weight, source) an expression is computed from.

Flow-insensitive backward slice over local definitions, interprocedural through parameters (all call sites) and results (returned
expressions of functions with a body); subscripts and calls of unknown functions are computed from their operands."""
import hf
from absint import short

CALL = {'get_input_symbol': 'in', 'get_input_number': 'in', 'lower_char': 'in',
        'get_output_symbol': 'out', 'get_output_number': 'out', 'upper_char': 'out',
        'get_target_state': 'tgt', 'get_target': 'tgt', 'target_node': 'tgt', 'get_weight': 'w',
        'final_weight': 'fw'}
CALL1 = {'Final': 'fw', 'get_final_weight': 'fw'}
GCLS = ('HfstBasicTransition', 'HfstTropicalTransducerTransitionData', 'SFST::', 'hfst_ol::Transition')
MEM = {'ilabel': 'in', 'olabel': 'out', 'nextstate': 'tgt', 'weight': 'w', 'in': 'in', 'out': 'out', 'target': 'tgt', 'state_no': 'src',
       'input': 'in', 'output': 'out', 'input_number': 'in', 'output_number': 'out', 'target_state': 'tgt', 'input_symbol': 'in',
       'output_symbol': 'out', 'target_index': 'tgt', 'transition_weight': 'w'}
MCLS = ('ArcTpl', 'fsm_state', 'TransitionPlaceholder', 'HfstBasicTransition', 'TransitionData', 'hfst_ol::Transition')
# sink -> role of each argument
SINK = {('HfstBasicTransition', 4): ('tgt', 'in', 'out', 'w'), ('HfstBasicTransition', 5): ('tgt', 'in', 'out', 'w', None),
        ('ArcTpl', 4): ('in', 'out', 'w', 'tgt'), ('ArcTpl', 3): ('in', 'out', 'tgt'),
        ('fsm_construct_add_arc', 5): (None, 'src', 'tgt', 'in', 'out'), ('fsm_construct_add_arc_nums', 5): (None, 'src', 'tgt', 'in', 'out'),
        ('Label', 2): ('in', 'out'), ('TransitionPlaceholder', 4): ('tgt', 'in', 'out', 'w'),
        ('Transition', 4): ('in', 'out', 'tgt', None), ('Transition', 3): ('in', 'out', 'tgt'),
        ('TransitionW', 4): ('in', 'out', 'tgt', 'w'), ('TransitionW', 5): ('in', 'out', 'tgt', 'w', None),
        ('HfstTropicalTransducerTransitionData', 3): ('in', 'out', 'w'), ('HfstTropicalTransducerTransitionData', 4): ('in', 'out', 'w', None)}
SINKCLS = {'Label': 'SFST::', 'Transition': 'hfst_ol::', 'TransitionW': 'hfst_ol::', 'ArcTpl': 'fst::'}


def mname(n):
    return n.get('m') or short(n.get('n', ''))


class Roles:
    def __init__(self, P):
        self.P = P
        self.sites = None
        self.defs = {}
        self.vc = {}
        self.rc = {}
        self.pc = {}
        self.busy = set()

    def fdefs(self, fn):
        d = self.defs.get(fn.u)
        if d is None:
            d = self.defs[fn.u] = {}

            def add(i, e):
                if e is not None:
                    d.setdefault(key(i), []).append(e)
            for n in hf.walk(fn.body):
                k = n.get('k')
                if k == 'vardecl':
                    add(n['id'], n.get('init'))
                elif k == 'asg' and n['a'].get('k') == 'ref':
                    add(n['a'].get('id'), n['b'])
                elif k == 'call' and n.get('op') in ('=', '+=') and (n.get('o') or {}).get('k') == 'ref' and n.get('args'):
                    add(n['o'].get('id'), n['args'][0])
                elif k == 'rfor':
                    add(n['var'].get('id'), n.get('range'))
        return d

    def callsites(self):
        if self.sites is None:
            self.sites = {}
            for f in self.P.fns.values():
                for c in self.P.calls(f):
                    self.sites.setdefault(c.get('u'), []).append((f, c))
        return self.sites

    def atoms(self, fn, n, depth=0):
        """set of roles the value of expression n is computed from"""
        if not isinstance(n, dict) or depth > 40:
            return frozenset()
        k = n.get('k')
        if k == 'ref':
            dk = n.get('dk')
            i = key(n.get('id'))
            if dk == 'var':
                ck = (fn.u, i)
                if ck in self.vc:
                    return self.vc[ck]
                if ck in self.busy:
                    return frozenset()
                self.busy.add(ck)
                r = frozenset()
                for e in self.fdefs(fn).get(i, []):
                    r |= self.atoms(fn, e, depth + 1)
                self.busy.discard(ck)
                self.vc[ck] = r
                return r
            if dk == 'parm':
                ck = (fn.u, i, 'p')
                if ck in self.vc:
                    return self.vc[ck]
                if ck in self.busy:
                    return frozenset()
                self.busy.add(ck)
                r = frozenset()
                idx = [j for j, p in enumerate(fn.params) if key(p['id']) == i]
                for e in self.fdefs(fn).get(i, []):
                    r |= self.atoms(fn, e, depth + 1)
                if idx:
                    for g, c in self.callsites().get(fn.u, []):
                        if len(c.get('args', [])) > idx[0]:
                            r |= self.atoms(g, c['args'][idx[0]], depth + 1)
                self.busy.discard(ck)
                self.vc[ck] = r
                return r
            return frozenset()
        if k == 'mem':
            full = n.get('n', '')
            m = mname(n)
            if m in MEM and any(c in full for c in MCLS):
                return frozenset([MEM[m]])
            if 'pair<const unsigned int, float>' in full:
                return frozenset(['fw' if m == 'second' else 'src'])
            return self.atoms(fn, n.get('b'), depth + 1)
        if k in ('call', 'ctor'):
            s = short(n.get('fn', ''))
            if s in CALL and any(c in n.get('fn', '') for c in GCLS) and not n.get('args'):
                return frozenset([CALL[s]])
            if s in CALL1 and len(n.get('args', [])) == 1:
                return frozenset([CALL1[s]])
            r = frozenset()
            if n.get('op') != '->' or True:
                for a in ([n['o']] if n.get('o') else []) + n.get('args', []):
                    r |= self.atoms(fn, a, depth + 1)
            g = self.P.fns.get(n.get('u'))
            if g is not None and g.size < 400 and k == 'call':
                r |= self.result(g, depth + 1)
            return r
        if k == 'cond':
            return self.atoms(fn, n.get('a'), depth + 1) | self.atoms(fn, n.get('b'), depth + 1)
        r = frozenset()
        for kk in ('a', 'b', 'e'):
            v = n.get(kk)
            if isinstance(v, dict):
                r |= self.atoms(fn, v, depth + 1)
            elif isinstance(v, list):
                for x in v:
                    r |= self.atoms(fn, x, depth + 1)
        return r

    def result(self, g, depth):
        """roles read inside g that reach its result (parameters are accounted for at the call)"""
        if g.u in self.rc:
            return self.rc[g.u]
        self.rc[g.u] = frozenset()
        r = frozenset()
        pids = {key(p['id']) for p in g.params}
        for p in pids:                       # do not mix in other call sites
            self.vc.setdefault((g.u, p, 'p'), None)
        saved = {}
        for p in pids:
            saved[p] = self.vc[(g.u, p, 'p')]
            self.vc[(g.u, p, 'p')] = frozenset()
        keep = dict(self.vc)
        for n in hf.walk(g.body):
            if n.get('k') == 'return' and n.get('e') is not None:
                r |= self.atoms(g, n['e'], depth + 1)
        self.vc = keep
        for p in pids:
            if saved[p] is None:
                del self.vc[(g.u, p, 'p')]
            else:
                self.vc[(g.u, p, 'p')] = saved[p]
        self.rc[g.u] = r
        return r

    def sink(self, n):
        """(name, [(role, argument)]) when n builds a transition"""
        k = n.get('k')
        if k in ('call', 'ctor'):
            s = short(n.get('fn', ''))
            a = n.get('args', [])
            r = SINK.get((s, len(a)))
            if r and SINKCLS.get(s, '') in n.get('fn', '') and (k == 'ctor' or s.startswith('fsm_')):
                return s, [(ro, x) for ro, x in zip(r, a) if ro]
            if s == 'add_arc' and 'SFST' in n.get('fn', '') and len(a) >= 2:
                return s, [('tgt', a[1])]
        if k == 'asg' and n['a'].get('k') == 'mem':
            m = mname(n['a'])
            if m in MEM and m != 'state_no' and any(c in n['a'].get('n', '') for c in MCLS[:3]):
                return m, [(MEM[m], n['b'])]
        return None


def key(i):
    return tuple(i) if isinstance(i, list) else i
