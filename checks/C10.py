#!/usr/bin/env python3
"""C10: HfstBasicTransducer stays well formed: symbols of stored transitions are in the alphabet, their target states exist, the special
symbols stay in the alphabet, and transitions are removed exactly."""
import sys, os, glob
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import hf, chk, subst, cfg, roles
from absint import short
from cfg import strip, lit, ref
from roles import key

CLS = 'hfst::implementations::HfstBasicTransducer'
SPECIAL = ('@_EPSILON_SYMBOL_@', '@_UNKNOWN_SYMBOL_@', '@_IDENTITY_SYMBOL_@')
LOOPS = ('for', 'while', 'rfor', 'do')
GETIN = ('get_input_symbol', 'get_input_number')
GETOUT = ('get_output_symbol', 'get_output_number')


class F:
    """leaves (where a value comes from) of expressions of one function"""
    def __init__(self, X, fn):
        self.X, self.fn = X, fn
        self.defs = X.R.fdefs(fn)
        self.par = {}
        for n in hf.walk(fn.body):
            for v in n.values():
                for x in (v if isinstance(v, list) else [v]):
                    if isinstance(x, dict):
                        self.par[id(x)] = n
        self.pids = {key(p['id']): p['n'] for p in fn.params}
        self.pushes = {}
        for n in hf.walk(fn.body):
            if n.get('k') == 'call' and short(n.get('fn', '')) in ('push_back', 'push', 'insert', 'emplace_back') and n.get('args') and n.get('o'):
                r = ref(n['o'])
                if r:
                    self.pushes.setdefault(key(r['id']), []).append(n['args'][-1])
        self.C = cfg.CFG(fn)

    def chain(self, n):
        out = []
        while id(n) in self.par:
            p = self.par[id(n)]
            out.append((p, n))
            n = p
        return out

    # what an object expression denotes: 'this', ('parm', name), ('local', id), ...
    def root(self, e, seen=()):
        e = strip(e)
        if not isinstance(e, dict):
            return frozenset(['this'])
        k = e.get('k')
        if k == 'this':
            return frozenset(['this'])
        if k == 'un' and e.get('op') in ('*', '&'):
            return self.root(e['e'], seen)
        if k == 'ref':
            i = key(e.get('id'))
            if i in seen:
                return frozenset()
            r = frozenset()
            for d in self.defs.get(i, []):
                r |= self.root(d, seen + (i,))
            for d in self.pushes.get(i, []):
                r |= self.root(d, seen + (i,))
            if e.get('dk') == 'parm':
                r |= frozenset([('parm', e['n'])])
            elif not r:
                r = frozenset([('local', e.get('n'))])
            return r
        if k == 'mem':
            if e.get('m') in ('state_vector', 'alphabet', 'final_weight_map'):
                return self.root(e.get('b'), seen)
            return self.root(e.get('b'), seen) if e.get('b') else frozenset(['this'])
        if k in ('call', 'ctor'):
            if k == 'ctor' and 'HfstBasicTransition' in e.get('fn', '') and len(e.get('args', [])) >= 4:
                return frozenset(['made'])
            if k == 'ctor' and not e.get('args'):
                return frozenset()
            if e.get('o') is not None:
                return self.root(e['o'], seen)
            if k == 'ctor' or e.get('args'):
                return self.root(e['args'][0], seen) if e.get('args') else frozenset(['this'])
            return frozenset(['this'])
        if k == 'idx':
            return self.root(e['a'], seen)
        return frozenset([('?', k)])

    def leaves(self, e, seen=(), path=()):
        """sources of a symbol value"""
        e = strip(e)
        if not isinstance(e, dict):
            return frozenset()
        k = e.get('k')
        if k == 'str':
            return frozenset([('str', e.get('v'))])
        if k in ('int', 'bool', 'chr', 'null', 'flt'):
            return frozenset([('num', e.get('v'))])
        if k == 'ref':
            if e.get('dk') in ('var', 'parm'):
                i = key(e.get('id'))
                if i in seen:
                    return frozenset()
                r = frozenset()
                for d in self.defs.get(i, []):
                    r |= self.leaves(d, seen + (i,), path)
                for d in self.pushes.get(i, []):
                    r |= self.leaves(d, seen + (i,), path)
                if e.get('dk') == 'parm':
                    r |= frozenset([('parm', e['n']) + path])
                return r or frozenset([('local', e.get('n')) + path])
            if 'internal_epsilon' in e.get('n', '') or 'internal_unknown' in e.get('n', '') or 'internal_identity' in e.get('n', ''):
                return frozenset([('str', SPECIAL[0])])
            return frozenset([('glob', e.get('n')) + path])
        if k == 'mem':
            if e.get('m') in ('first', 'second') and e.get('b') is not None:
                return self.leaves(e['b'], seen, (e['m'],) + path)
            b = e.get('b')
            return self.leaves(b, seen, path) if b is not None and (strip(b) or {}).get('k') != 'this' else frozenset([('field', e.get('m')) + path])
        if k in ('call', 'ctor'):
            s = short(e.get('fn', ''))
            if s in GETIN + GETOUT:
                return frozenset(('tr', r, 'in' if s in GETIN else 'out') for r in self.root(e.get('o')))
            if s in ('get_epsilon', 'get_unknown', 'get_identity'):
                return frozenset([('str', SPECIAL[0])])
            if s == 'get_marker':
                return frozenset([('marker',)])
            if path and len(e.get('args', [])) == 2 and (s == 'make_pair' or k == 'ctor' and 'pair' in s):
                return self.leaves(e['args'][path[0] == 'second'], seen, path[1:])
            if (s in ('at', 'find') or e.get('op') == '[]') and e.get('o') is not None and len(e.get('args', [])) == 1:
                kl = self.leaves(e['args'][0], seen)          # one element of a collection: which one depends on the key
                return self.leaves(e['o'], seen, ('[%s]' % ' '.join(sorted(map(str, kl))),) + path)
            r = frozenset()
            for a in ([e['o']] if e.get('o') else []) + e.get('args', []):
                r |= self.leaves(a, seen, path)
            return r
        r = frozenset()
        for kk in ('a', 'b', 'e'):
            v = e.get(kk)
            for x in (v if isinstance(v, list) else [v]):
                if isinstance(x, dict):
                    r |= self.leaves(x, seen, path)
        return r

    def made(self, e, seen=()):
        """constructions of the transition that expression e denotes; None when it is not built here"""
        e = strip(e)
        if not isinstance(e, dict):
            return []
        if e.get('k') == 'ctor':
            if 'HfstBasicTransition' in e.get('fn', '') and len(e.get('args', [])) >= 4:
                return [e]
            out = []
            for a in e.get('args', []):
                out += self.made(a, seen)
            return out
        if e.get('k') == 'ref':
            i = key(e.get('id'))
            if i in seen:
                return []
            out = []
            for d in self.defs.get(i, []) + self.pushes.get(i, []):
                out += self.made(d, seen + (i,))
            return out
        out = []
        for kk in ('o', 'e', 'a', 'b'):
            if isinstance(e.get(kk), dict):
                out += self.made(e[kk], seen)
        return out

    def registrations(self):
        """(call, leaves registered)"""
        out = []
        for n in hf.walk(self.fn.body):
            if n.get('k') != 'call':
                continue
            s = short(n.get('fn', ''))
            if s in ('add_symbol_to_alphabet', 'add_symbols_to_alphabet') and n.get('args'):
                out.append((n, self.leaves(n['args'][0]), n.get('o')))
            elif s == 'insert' and isinstance(n.get('o'), dict) and strip(n['o']).get('k') == 'mem' and strip(n['o']).get('m') == 'alphabet' and n.get('args'):
                ls = frozenset()
                for a in n['args']:
                    ls |= self.leaves(a)
                out.append((n, ls, strip(n['o']).get('b')))
        return out


class Ctx:
    def __init__(self, P):
        self.P, self.R = P, roles.Roles(P)
        self.memo = {}

    def f(self, fn):
        if fn.u not in self.memo:
            self.memo[fn.u] = F(self, fn)
        return self.memo[fn.u]


def conds_of(fx, n):
    """enclosing if conditions with branch"""
    return [(p, p.get('a') is ch) for p, ch in fx.chain(n) if p.get('k') == 'if' and ch is not p.get('c')]


def guard_ok(fx, reg, store, cond, branch, leaf):
    """may the registration be conditional on cond?"""
    c = strip(cond['c'])
    for x in hf.walk(c):
        if x.get('k') == 'call' and short(x.get('fn', '')) in ('find', 'count', 'contains'):
            return True
    r = ref(c)
    if r is not None and r.get('dk') == 'var':
        # a flag set where the transition is stored
        for n in hf.walk(fx.fn.body):
            if n.get('k') == 'asg' and (ref(n['a']) or {}).get('id') == r['id'] and lit(n['b']) in (True, 1):
                return True
    if r is not None and r.get('dk') == 'parm' and fx.fn.name == 'add_transition':
        return True
    # the other branch replaces the value by one of this graph
    other = cond.get('b') if branch else cond.get('a')
    if other:
        for n in hf.walk(other):
            if n.get('k') == 'asg' or n.get('k') == 'call' and n.get('op') == '=':
                return True
    return False


def check_stores(c, X, fns):
    n_st = 0
    for fn in fns:
        fx = X.f(fn)
        regs = None
        for n in hf.walk(fn.body):
            st = None
            if n.get('k') == 'call' and short(n.get('fn', '')) in ('push_back', 'emplace_back') and n.get('args') and elem_is_transition(n.get('fn', '')) \
                    and 'this' in fx.root(n.get('o')) and not (ref(n.get('o')) and 'std::vector' in tof(fx, n['o'])):
                st = n['args'][-1]
            elif (n.get('k') == 'call' and n.get('op') == '=' and n.get('o') is not None and 'HfstBasicTransition::' in n.get('fn', '') and n.get('args')
                  and 'this' in fx.root(n['o']) and 'made' not in fx.root(n['o'])):
                st = n['args'][0]
            elif n.get('k') == 'call' and short(n.get('fn', '')) == 'add_transition' and CLS in n.get('fn', '') and len(n.get('args', [])) == 3 \
                    and lit(n['args'][2]) in (False, 0) and 'this' in fx.root(n.get('o')):
                st = n['args'][1]
            if st is None or strip(st).get('k') == 'ctor' and not strip(st).get('args'):
                continue
            n_st += 1
            site = '%s(%s)' % (fn.name, ', '.join(p['n'] for p in fn.params))
            mk = fx.made(st)
            syms, tgts = [], []
            if mk:
                for m in mk:
                    syms += [(m['args'][1], 'in'), (m['args'][2], 'out')]
                    tgts.append(m['args'][0])
                ls = frozenset()
                for s, _ in syms:
                    ls |= fx.leaves(s)
            else:
                rts = fx.root(st)
                ls = frozenset(('tr', r, io) for r in rts for io in ('in', 'out') if r != 'this')
            if regs is None:
                regs = fx.registrations()
            for lf in sorted(ls, key=str):
                if lf[0] == 'str' and lf[1] in SPECIAL or lf[0] == 'tr' and lf[1] == 'this' or lf[0] in ('num', 'marker'):
                    continue
                if lf[0] == 'tr' and lf[1] == 'made':
                    continue
                cov = [(r, o) for r, l, o in regs if covers(l, lf)]
                near = [m for m in mk if lf in fx.leaves(m['args'][1]) | fx.leaves(m['args'][2])]
                if cov and near:
                    cov = [(r, o) for r, o in cov if all(same_position(fx, r, m) for m in near)]
                    if not cov and len(near) > 1 and all(any(same_position(fx, r, m) for r, l, o in regs if covers(l, lf)) for m in near):
                        cov = [(r, o) for r, l, o in regs if covers(l, lf)]
                if not cov and covered_by_callers(X, fn, lf):
                    c.obligation('symbols-registered', site, True)
                    continue
                what = {'parm': 'parameter %s', 'str': 'the string %s', 'local': '%s', 'tr': 'a transition of %s', 'glob': '%s', 'field': 'field %s'}
                name = what.get(lf[0], '%s') % (str(lf[1] if lf[0] != 'tr' else (lf[1][1] if isinstance(lf[1], tuple) else lf[1])),)
                if not cov:
                    c.obligation('symbols-registered', site, False, 'a transition is stored with a symbol from %s that is not added to the alphabet' % name, fn.file, n.get('l'))
                    continue
                stc = {(id(p), b) for p, b in conds_of(fx, n)}
                for m in mk:          # a transition kept aside before it is stored: what holds where it was built
                    if lf in fx.leaves(m['args'][1]) | fx.leaves(m['args'][2]):
                        stc |= {(id(p), b) for p, b in conds_of(fx, m)}
                good = False
                for r, o in cov:
                    extra = [(p, b) for p, b in conds_of(fx, r) if (id(p), b) not in stc]
                    if all(guard_ok(fx, r, n, p, b, lf) for p, b in extra):
                        good = True
                c.obligation('symbols-registered', site, good, 'the symbol from %s is added to the alphabet only in some of the cases in which the transition is stored' % name,
                             fn.file, n.get('l'))
            # target state
            for t in tgts:
                if short(n.get('fn', '')) == 'add_transition':
                    continue
                tl = target_leaves(fx, t)
                bad = [l for l in tl if l == 'parm' and not adds_state(fx, t)]
                if 'unknown' in tl:
                    c.undecide('target-exists', site)
                else:
                    c.obligation('target-exists', site, not bad, 'a transition is stored whose target state may not exist', fn.file, n.get('l'))
    return n_st


def covers(registered, lf):
    return lf in registered or lf[0] != 'tr' and any(lf[:n] in registered for n in range(2, len(lf)))


def same_position(fx, reg, m):
    """does the registration see the element the transition is built from: no move of a shared iterator in between"""
    rs = lambda n: {key(x['id']) for x in hf.walk(n) if x.get('k') == 'ref' and x.get('dk') == 'var'}
    both = rs(reg) & rs(m['args'][1:3])
    a, b = fx.C.of(m), fx.C.of(reg)
    if a is None or b is None:
        return True
    for i in both:
        if not any(inc_var(y) and inc_var(y)[0] == i for y in hf.walk(fx.fn.body)):
            continue
        if a is b:
            continue
        mv = moves(i)
        if fx.C.after(a, mv, None, [b]) is None and fx.C.after(b, mv, None, [a]) is None:
            return False
    return True


def moves(i):
    """node test: does it move iterator i or give it a new value"""
    return lambda x: any((inc_var(y) or (None,))[0] == i or y.get('k') == 'vardecl' and key(y.get('id')) == i
                         or (y.get('k') == 'asg' or y.get('k') == 'call' and y.get('op') == '=') and (ref(y.get('a') or y.get('o')) or {}).get('id') is not None
                         and key(ref(y.get('a') or y.get('o'))['id']) == i for y in cfg.walk_expr(x.ast))


def elem_is_transition(q):
    i = q.find('HfstBasicTransition>')
    return 0 <= i and q[:i].rstrip().rsplit('<', 1)[0].endswith('std::vector') and q[:i].count('vector') == 1


def tof(fx, e):
    """declared type of a local value variable that owns its elements (not a reference)"""
    r = ref(e)
    for n in hf.walk(fx.fn.body):
        if n.get('k') == 'vardecl' and n.get('id') == r.get('id'):
            t = n.get('t') or ''
            return '' if '&' in t or '*' in t else t if 'iterator' not in t else ''
    return ''


def covered_by_callers(X, fn, lf):
    if lf[0] != 'parm':
        return False
    idx = [j for j, p in enumerate(fn.params) if p['n'] == lf[1]]
    sites = X.R.callsites().get(fn.u, [])
    if not idx or not sites or fn.acc not in ('private', 'protected', 1, 2):
        return False
    for g, call in sites:
        gx = X.f(g)
        ls = gx.leaves(call['args'][idx[0]])
        for l in ls:
            if l[0] == 'str' and l[1] in SPECIAL or l[0] == 'tr' and l[1] == 'this' or l[0] in ('num', 'marker'):
                continue
            if not any(covers(rl, l) and not [p for p, b in conds_of(gx, r) if (id(p), b) not in {(id(a), bb) for a, bb in conds_of(gx, call)}] for r, rl, o in gx.registrations()):
                return False
    return True


def target_leaves(fx, e, seen=()):
    e = strip(e)
    k = e.get('k')
    if k == 'ref':
        i = key(e.get('id'))
        if i in seen:
            return set()
        out = set()
        if e.get('dk') == 'parm':
            # used as the number of a state: as an index into the vector of states, or by another function that looks it up
            if not any(n.get('k') == 'call' and n.get('args') and any((ref(a) or {}).get('id') == e['id'] for a in n['args'])
                       and ((n.get('op') == '[]' or short(n.get('fn', '')) == 'at') and (strip(n.get('o')) or {}).get('m') == 'state_vector'
                            or (n.get('fn') or '').split('(')[0].rsplit('::', 1)[0].endswith('HfstBasicTransducer')
                            and short(n.get('fn', '')) not in ('is_final_state', 'HfstBasicTransducer')) for n in hf.walk(fx.fn.body)):
                out.add('parm')
        for d in fx.defs.get(i, []):
            out |= target_leaves(fx, d, seen + (i,))
        return out
    if k == 'call':
        s = short(e.get('fn', ''))
        if s in ('get_target_state',):
            return {'own'} if fx.root(e.get('o')) <= {'this', 'made'} else {'parm'}
        if s == 'add_state':
            return {'own'}
        return {'unknown'}
    if k in ('int',):
        return {'own'}
    if k in ('bin', 'asg', 'un'):
        out = set()
        for kk in ('a', 'b', 'e'):
            if isinstance(e.get(kk), dict):
                out |= target_leaves(fx, e[kk], seen)
        return out
    return {'unknown'}


def adds_state(fx, t):
    r = ref(t)
    for n in hf.walk(fx.fn.body):
        if n.get('k') == 'call' and short(n.get('fn', '')) == 'add_state' and n.get('args'):
            a = n['args'][0]
            if r is not None and (ref(a) or {}).get('id') == r['id'] or roles_norm(a) == roles_norm(t):
                return not conds_of(fx, n)
    return False


def roles_norm(n):
    if isinstance(n, dict):
        if n.get('k') in ('cast',) and isinstance(n.get('e'), dict):
            return roles_norm(n['e'])
        return tuple((k, roles_norm(v)) for k, v in sorted(n.items()) if k not in ('l', 'nid', 't'))
    if isinstance(n, list):
        return tuple(roles_norm(x) for x in n)
    return n


# ------------------------------------------------------------------ special symbols stay
def check_erase_alphabet(c, X, fns):
    for fn in fns:
        if fn.name in ('remove_symbol_from_alphabet', 'remove_symbols_from_alphabet'):
            continue          # documented as to be used with care: removes what it is given
        fx = X.f(fn)
        for n in hf.walk(fn.body):
            if n.get('k') != 'call':
                continue
            s = short(n.get('fn', ''))
            if not (s == 'erase' and isinstance(n.get('o'), dict) and strip(n['o']).get('k') == 'mem' and strip(n['o']).get('m') == 'alphabet'
                    or s in ('remove_symbol_from_alphabet', 'remove_symbols_from_alphabet') and CLS in n.get('fn', '')):
                continue
            a = n['args'][0]
            site = '%s(%s)' % (fn.name, ', '.join(p['n'] for p in fn.params))
            ls = fx.leaves(a)
            if all(l[0] == 'marker' or l[0] == 'str' and l[1] not in SPECIAL for l in ls) and ls:
                c.obligation('special-kept', site, True)
                continue
            conds = [p['c'] for p, _ in conds_of(fx, n)]
            # conditions on what was put in a collection that is gone through
            for r in [x for x in hf.walk(a) if x.get('k') == 'ref']:
                seen, work = set(), [key(r.get('id'))]
                while work:
                    i = work.pop()
                    if i in seen:
                        continue
                    seen.add(i)
                    for m in hf.walk(fn.body):
                        if m.get('k') == 'call' and short(m.get('fn', '')) in ('insert', 'push', 'push_back') and (ref(m.get('o')) or {}).get('id') is not None \
                                and key(ref(m['o'])['id']) == i:
                            conds += [p['c'] for p, _ in conds_of(fx, m)]
                    for d in fx.defs.get(i, []):
                        work += [key(y.get('id')) for y in hf.walk(d) if y.get('k') == 'ref' and y.get('dk') == 'var']
            if not conds:
                c.obligation('special-kept', site, False, 'a special symbol (epsilon, unknown, identity) may be removed from the alphabet', fn.file, n.get('l'))
                continue
            g = [special_guard(fx, x) for x in conds]
            if True in g:
                c.obligation('special-kept', site, True)
            elif all(x is False for x in g):
                c.obligation('special-kept', site, False, 'a special symbol (epsilon, unknown, identity) may be removed from the alphabet', fn.file, n.get('l'))
            else:
                c.undecide('special-kept', site)


def special_guard(fx, cond):
    """True: keeps special symbols; False: says nothing about them; None: unknown"""
    res = False
    for x in hf.walk(cond):
        if x.get('k') == 'call':
            s = short(x.get('fn', ''))
            if s in ('is_epsilon', 'is_unknown', 'is_identity', 'is_special_symbol', 'marker2weight', 'purge_symbol', 'is_diacritic'):
                return True
            if s in ('find', 'count') and x.get('o') is not None:
                r = ref(x['o'])
                if r is not None:
                    got = set()
                    for n in hf.walk(fx.fn.body):
                        if n.get('k') == 'call' and short(n.get('fn', '')) in ('insert', 'emplace') and (ref(n.get('o')) or {}).get('id') == r.get('id'):
                            for y in hf.walk(n):
                                if y.get('k') == 'str' and y.get('v') in SPECIAL:
                                    got.add(y['v'])
                                for nm, v in zip(('internal_epsilon', 'internal_unknown', 'internal_identity', 'get_epsilon', 'get_unknown', 'get_identity'), SPECIAL * 2):
                                    if nm in str(y.get('n', '')) + str(y.get('fn', '')):
                                        got.add(v)
                        if n.get('k') == 'call' and short(n.get('fn', '')) == 'initialize_alphabet' and any((ref(y) or {}).get('id') == r.get('id') for y in n.get('args', [])):
                            return True
                    if len(got) == 3:
                        return True
            elif s not in ('end', 'at', 'operator[]', 'operator==', 'operator!=', 'begin', 'symbols_used', 'empty', 'size', 'operator bool') + GETIN + GETOUT and not x.get('op'):
                res = None
        if x.get('k') == 'str' and x.get('v') in SPECIAL:
            return True
        if x.get('k') == 'bin' and x.get('op') in ('>', '>=', '<', '<='):
            op, v = (x['op'], lit(x['b'])) if lit(x['b']) is not None else ({'<': '>', '<=': '>='}.get(x['op']), lit(x['a']))
            if isinstance(v, int) and (op == '>' and v >= 2 or op == '>=' and v >= 3):
                return True
    return res


# ------------------------------------------------------------------ replacing a transition keeps the rest of it
def getters(fx, e):
    """(getter, variable the getter is called on) used in e, through local variables"""
    out = set()
    for x in deep(fx, e):
        if x.get('k') == 'call' and x.get('o') is not None:
            s = short(x.get('fn', ''))
            r = ref(x['o'])
            if r is not None and s in GETIN + GETOUT + ('get_weight', 'get_target_state'):
                i = key(r['id'])
                ds = fx.defs.get(i, [])
                if len(ds) == 1 and strip(ds[0]).get('k') == 'call' and short(strip(ds[0]).get('fn', '')) == 'get_transition_data' and ref(strip(ds[0]).get('o')):
                    i = key(ref(strip(ds[0])['o'])['id'])
                out.add(('in' if s in GETIN else 'out' if s in GETOUT else 'w' if s == 'get_weight' else 't', i))
    return out


def check_rewrites(c, X, fns):
    n_rw = 0
    for fn in fns:
        fx = X.f(fn)
        site = '%s(%s)' % (fn.name, ', '.join(p['n'] for p in fn.params))
        inplace = set()
        for n in hf.walk(fn.body):
            if (n.get('k') == 'call' and n.get('op') == '=' and n.get('o') is not None and 'HfstBasicTransition::' in n.get('fn', '') and n.get('args')
                    and 'this' in fx.root(n['o']) and 'made' not in fx.root(n['o'])):
                inplace |= {id(m) for m in fx.made(n['args'][0])}
        for m in hf.walk(fn.body):
            if m.get('k') != 'ctor' or 'HfstBasicTransition' not in m.get('fn', '') or len(m.get('args', [])) < 4:
                continue
            g = [getters(fx, a) for a in m['args'][:4]]
            ti = {x for w, x in g[0] if w == 't'}
            if {w for w, _ in g[1]} == {'out'} and {w for w, _ in g[2]} == {'in'} and {x for _, x in g[1]} == {x for _, x in g[2]}:
                c.obligation('rewrite-keeps', site, False, 'input and output symbol of a transition change places', fn.file, m.get('l'))
            if not inplace or 'weight' in fn.name:
                continue
            n_rw += 1
            if id(m) in inplace:
                c.obligation('rewrite-keeps', site, bool(ti), 'a transition is replaced by one whose target is not that of the old one', fn.file, m.get('l'))
            if ti:
                c.obligation('rewrite-keeps', site, any(w == 'w' and x in ti for w, x in g[3]),
                             'a transition is replaced by one that does not have the weight of the old one', fn.file, m.get('l'))
            if ti:
                for slot, own, other in ((1, 'input', 'output'), (2, 'output', 'input')):
                    r = ref(m['args'][slot])
                    if r is None:
                        continue
                    for n in hf.walk(fn.body):
                        t = n.get('a') if n.get('k') == 'asg' else n.get('o') if n.get('k') == 'call' and n.get('op') == '=' else None
                        if t is None or (ref(t) or {}).get('id') != r.get('id'):
                            continue
                        for p, b in conds_of(fx, n):
                            names = {x.get('n') for x in hf.walk(p['c']) if x.get('k') == 'ref' and x.get('dk') == 'parm'}
                            gs = {w for w, x in getters(fx, p['c']) if x in ti}
                            wrong = other + '_side' in names and own + '_side' not in names or gs == {other[:-3]}
                            c.obligation('rewrite-keeps', site, not wrong, 'the %s symbol of a transition is replaced depending on its %s symbol' % (own, other),
                                         fn.file, n.get('l'))
    return n_rw


# ------------------------------------------------------------------ what counts as a used symbol
def check_used(c, X, fns):
    """a symbol counts as used when it occurs on either side of a transition"""
    n_u = 0
    for fn in fns:
        fx = X.f(fn)
        erases = any(n.get('k') == 'call' and short(n.get('fn', '')) == 'erase' and (strip(n.get('o') or {}) or {}).get('m') == 'alphabet' for n in hf.walk(fn.body))
        if not erases and fn.name != 'symbols_used':
            continue
        site = '%s(%s)' % (fn.name, ', '.join(p['n'] for p in fn.params))
        marks = {}          # variable -> sides seen
        for n in hf.walk(fn.body):
            t = v = None
            if n.get('k') == 'call' and short(n.get('fn', '')) in ('insert', 'emplace') and 'Transition' not in n.get('fn', '') and ref(n.get('o')) and n.get('args'):
                t, v = ref(n['o']), n['args']
            elif n.get('k') == 'asg' or n.get('k') == 'call' and n.get('op') == '=':
                a, b = (n['a'], n['b']) if n['k'] == 'asg' else (n['o'], n['args'][0])
                b_true = lit(b) in (True, 1)
                if b_true and ref(a) is not None:
                    t, v = ref(a), [p['c'] for p, _ in conds_of(fx, n)][:1]
                    if not v or not ref_bool(fx, ref(a)):
                        continue
                elif b_true:
                    for y in hf.walk(a):
                        if y.get('k') == 'call' and (y.get('op') == '[]' or short(y.get('fn', '')) == 'at') and ref(y.get('o')):
                            t, v = ref(y['o']), y['args']
            if t is None:
                continue
            g = {w for x in v for w, _ in getters(fx, x)} & {'in', 'out'}
            if g:
                marks.setdefault(key(t['id']), [t.get('n'), set(), n.get('l')])[1].update(g)
        for i, (nm, g, l) in marks.items():
            n_u += 1
            c.obligation('used-both-sides', site, g == {'in', 'out'}, '%s is set only by the %s side of transitions, so that a symbol in use leaves the alphabet'
                         % (nm, 'input' if 'in' in g else 'output'), fn.file, l)
    return n_u


def ref_bool(fx, r):
    return any(n.get('k') == 'vardecl' and n.get('id') == r.get('id') and (n.get('t') or '').replace('const ', '') in ('bool', '_Bool') for n in hf.walk(fx.fn.body))


# ------------------------------------------------------------------ every element of a set of substitutes is used once
def check_each_once(c, X, fns):
    n_o = 0
    for fn in fns:
        fx = X.f(fn)
        uses = {}
        for m in hf.walk(fn.body):
            if m.get('k') == 'ctor' and 'HfstBasicTransition' in m.get('fn', '') and len(m.get('args', [])) >= 4:
                for a in m['args'][1:3]:
                    for x in hf.walk(a):
                        if x.get('k') == 'mem' and x.get('m') in ('first', 'second'):
                            for y in hf.walk(x.get('b')):
                                if y.get('k') == 'ref' and y.get('dk') == 'var':
                                    uses.setdefault(key(y['id']), {})[id(m)] = m
        for i, ms in uses.items():
            moved = moves(i)
            isit = any(inc_var(y) and inc_var(y)[0] == i for y in hf.walk(fn.body))
            if not isit:
                continue
            site = '%s(%s)' % (fn.name, ', '.join(p['n'] for p in fn.params))
            nodes = [fx.C.of(m) for m in ms.values()]
            if None in nodes:
                c.undecide('each-once', site)
                continue
            for a, m in zip(nodes, ms.values()):
                n_o += 1
                w = fx.C.after(a, moved, None, nodes)
                c.obligation('each-once', site, w is None, 'the same element gives two transitions: the iterator is not moved in between', fn.file, m.get('l'), path=w and w[1])
    return n_o


# ------------------------------------------------------------------ swapping final weights, by cases
def check_swap(c, X, fns):
    for fn in [f for f in fns if f.name == 'swap_state_numbers' and len(f.params) == 2]:
        fx = X.f(fn)
        ks = [key(p['id']) for p in fn.params]

        class Unknown(Exception):
            pass

        def keyof(e):
            r = ref(e)
            if r is not None and key(r['id']) in ks:
                return ks.index(key(r['id']))
            raise Unknown()

        def is_map(e):
            return isinstance(e, dict) and strip(e).get('k') == 'mem' and strip(e).get('m') == 'final_weight_map'

        def ev(e, env, mp):
            e = strip(e)
            k = e.get('k')
            if k == 'ctor' and len(e.get('args', [])) == 1:
                return ev(e['args'][0], env, mp)
            if k == 'ref' and e.get('dk') in ('var', 'parm'):
                i = key(e['id'])
                if i in ks:
                    return ('key', ks.index(i))
                return env.get(i)
            if k == 'call' and is_map(e.get('o')):
                s = short(e.get('fn', ''))
                if s == 'find':
                    j = keyof(e['args'][0])
                    return ('it', j) if mp[j] is not None else ('end',)
                if s in ('end', 'cend'):
                    return ('end',)
                if s in ('count', 'contains'):
                    return mp[keyof(e['args'][0])] is not None
                if e.get('op') == '[]' or s == 'at':
                    return ('ref', keyof(e['args'][0]))
                if s == 'erase':
                    v = ev(e['args'][0], env, mp)
                    if not v or v[0] not in ('key', 'it'):
                        raise Unknown()
                    mp[v[1]] = None
                    return None
                raise Unknown()
            if k == 'call' and short(e.get('fn', '')) == 'is_final_state':
                return mp[keyof(e['args'][0])] is not None
            if k == 'call' and short(e.get('fn', '')) == 'get_final_weight':
                return mp[keyof(e['args'][0])]
            if k == 'call' and short(e.get('fn', '')) == 'set_final_weight':
                mp[keyof(e['args'][0])] = rv(e['args'][1], env, mp)
                return None
            if k == 'call' and short(e.get('fn', '')) == 'swap' and len(e.get('args', [])) == 2:
                a, b = [ev(x, env, mp) for x in e['args']]
                if a and b and a[0] == 'ref' and b[0] == 'ref':
                    mp[a[1]], mp[b[1]] = mp[b[1]], mp[a[1]]
                    return None
                raise Unknown()
            if k == 'mem' and e.get('m') == 'second':
                b = e.get('b')
                for y in hf.walk(b):
                    if y.get('k') == 'ref' and y.get('dk') == 'var':
                        v = env.get(key(y['id']))
                        if v and v[0] == 'it':
                            return ('ref', v[1])
                raise Unknown()
            if k == 'bin' and e['op'] in ('==', '!=') or k == 'call' and e.get('op') in ('==', '!='):
                ops = [e['a'], e['b']] if k == 'bin' else ([e['o']] if e.get('o') else []) + e.get('args', [])
                if len(ops) != 2:
                    raise Unknown()
                a, b = ev(ops[0], env, mp), ev(ops[1], env, mp)
                if a is None or b is None or a[0] not in ('it', 'end') or b[0] not in ('it', 'end'):
                    raise Unknown()
                return (a == b) == ((e.get('op')) == '==')
            if k == 'bin' and e['op'] in ('>', '!=', '==') and lit(e['b']) == 0:
                a = ev(e['a'], env, mp)
                if isinstance(a, bool):
                    return a if e['op'] != '==' else not a
            if k == 'asg' or k == 'call' and e.get('op') == '=':
                t, v = (e['a'], e['b']) if k == 'asg' else (e['o'], e['args'][0])
                val = rv(v, env, mp)
                r = ref(t)
                if r is not None:
                    env[key(r['id'])] = val if not isinstance(val, tuple) else val
                    return None
                d = ev(t, env, mp)
                if d and d[0] == 'ref':
                    mp[d[1]] = val
                    return None
                raise Unknown()
            if mentions(e, env):
                raise Unknown()
            return None

        def rv(e, env, mp):
            v = ev(e, env, mp)
            if isinstance(v, tuple) and v[0] == 'ref':
                return mp[v[1]]
            return v

        def mentions(e, env):
            return any(x.get('k') == 'mem' and x.get('m') == 'final_weight_map' or x.get('k') == 'ref' and key(x.get('id')) in env for x in hf.walk(e))

        try:
            # start after the loops over the states
            loops = [s for s in (fn.body.get('s') or []) if s.get('k') in LOOPS]
            pos = max(fn.body['s'].index(s) for s in loops) + 1 if loops else 0
            if any(mentions(s, {}) for s in fn.body['s'][:pos]):
                raise Unknown()
            for case in range(4):
                mp = {0: ('w', 0) if case & 1 else None, 1: ('w', 1) if case & 2 else None}
                want = {0: mp[1], 1: mp[0]}
                env = {}

                def ex(s):
                    if s is None:
                        return
                    k = s.get('k')
                    if k == 'block':
                        for x in s.get('s', []):
                            ex(x)
                    elif k == 'decl':
                        for v in s['vars']:
                            if v.get('init') is not None:
                                env[key(v['id'])] = rv(v['init'], env, mp)
                    elif k == 'if':
                        t = tv(s['c'])
                        ex(s.get('a') if t else s.get('b'))
                    elif k in ('return', 'nop'):
                        if s.get('e'):
                            raise Unknown()
                    elif k in LOOPS or k in ('switch', 'try'):
                        raise Unknown()
                    else:
                        ev(s, env, mp)

                def tv(e):
                    e = strip(e)
                    if e.get('k') == 'bin' and e['op'] == '&&':
                        return tv(e['a']) and tv(e['b'])
                    if e.get('k') == 'bin' and e['op'] == '||':
                        return tv(e['a']) or tv(e['b'])
                    if e.get('k') == 'un' and e['op'] == '!':
                        return not tv(e['e'])
                    v = ev(e, env, mp)
                    if not isinstance(v, bool):
                        raise Unknown()
                    return v
                for s in fn.body['s'][pos:]:
                    ex(s)
                names = {0: 'neither state is final', 1: 'only the first state is final', 2: 'only the second state is final', 3: 'both states are final'}
                c.obligation('swap-final', 'swap_state_numbers: ' + names[case], mp == want, 'the final weights are not swapped when ' + names[case], fn.file, fn.l)
        except (Unknown, KeyError, TypeError, AttributeError, IndexError):
            c.undecide('swap-final', 'swap_state_numbers')


def check_swap_targets(c, X, fns):
    """swap_state_numbers: the transitions of the two states change places, and so do the two states as targets"""
    for fn in [f for f in fns if f.name == 'swap_state_numbers' and len(f.params) == 2]:
        ks = [key(p['id']) for p in fn.params]

        class Unknown(Exception):
            pass

        def var(e):
            r = ref(e)
            return None if r is None else key(r['id'])

        def ev(e, env, st):
            e = strip(e)
            k = e.get('k')
            v = var(e)
            if v is not None:
                if v in ks:
                    return ks.index(v)
                if v in env:
                    return env[v]
                raise Unknown()
            if k == 'call' and short(e.get('fn', '')) == 'get_target_state':
                return st['t']
            if k == 'call' and e.get('op') == '[]' and strip(e.get('o') or {}).get('k') == 'mem' and strip(e['o']).get('m') == 'state_vector' or k == 'sub' and strip(e.get('a') or {}).get('m') == 'state_vector':
                return ('slot', ev(e['args'][0] if k == 'call' else e['b'], env, st))
            if k == 'call' and short(e.get('fn', '')) == 'at' and strip(e.get('o') or {}).get('m') == 'state_vector':
                return ('slot', ev(e['args'][0], env, st))
            if k == 'call' and short(e.get('fn', '')) in ('swap', 'iter_swap') and len(e.get('args', [])) + bool(e.get('o')) == 2:
                a, b = [ev(x, env, st) for x in ([e['o']] if e.get('o') else []) + e['args']]
                if a[0] == b[0] == 'slot':
                    st['v'][a[1]], st['v'][b[1]] = st['v'][b[1]], st['v'][a[1]]
                    return None
            if k == 'call' and short(e.get('fn', '')) == 'move':
                return ev(e['args'][0], env, st)
            if k == 'ctor' and short(e.get('fn', '') or e.get('t', '')) == 'HfstBasicTransition' and len(e.get('args', [])) >= 4:
                return ('tr', rv(e['args'][0], env, st))
            if k == 'ctor' and len(e.get('args', [])) == 1:
                return ev(e['args'][0], env, st)
            if k == 'cond':
                return ev(e['a'] if tv(e['c'], env, st) else e['b'], env, st)
            if k == 'asg' and e.get('op', '=') == '=' or k == 'call' and e.get('op') == '=':
                t, w = (e['a'], e['b']) if k == 'asg' else (e['o'], e['args'][0])
                val = rv(w, env, st)
                i = var(t)
                if i is not None and not (isinstance(val, tuple) and val[0] == 'tr' and i not in st['own']):
                    env[i] = val
                    return None
                if isinstance(val, tuple) and val[0] == 'tr':
                    st['out'] = val[1]
                    return None
                d = ev(t, env, st)
                if isinstance(d, tuple) and d[0] == 'slot':
                    st['v'][d[1]] = val
                    return None
                raise Unknown()
            raise Unknown()

        def rv(e, env, st):
            v = ev(e, env, st)
            return st['v'][v[1]] if isinstance(v, tuple) and v[0] == 'slot' else v

        def tv(e, env, st):
            e = strip(e)
            if e.get('k') == 'bin' and e['op'] == '&&':
                return tv(e['a'], env, st) and tv(e['b'], env, st)
            if e.get('k') == 'bin' and e['op'] == '||':
                return tv(e['a'], env, st) or tv(e['b'], env, st)
            if e.get('k') == 'un' and e['op'] == '!':
                return not tv(e['e'], env, st)
            if e.get('k') == 'bin' and e['op'] in ('==', '!='):
                a, b = rv(e['a'], env, st), rv(e['b'], env, st)
                if isinstance(a, int) and isinstance(b, int):
                    return (a == b) == (e['op'] == '==')
            raise Unknown()

        def ex(s, env, st):
            if s is None:
                return False
            k = s.get('k')
            if k == 'block':
                return any(ex(x, env, st) for x in s.get('s', []))
            if k == 'decl':
                for v in s['vars']:
                    if v.get('init') is not None:
                        if v.get('t', '').rstrip().endswith('&') or 'HfstBasicTransition &' in v.get('t', ''):
                            continue
                        st['own'].add(key(v['id']))
                        env[key(v['id'])] = rv(v['init'], env, st)
                return False
            if k == 'if':
                return ex(s.get('a') if tv(s['c'], env, st) else s.get('b'), env, st)
            if k in ('nop', 'null', 'empty'):
                return False
            if k == 'continue':
                return True
            if k in LOOPS or k in ('switch', 'try', 'return', 'break'):
                raise Unknown()
            ev(s, env, st)
            return False

        body = fn.body.get('s') or []
        loops = [i for i, x in enumerate(body) if x.get('k') in LOOPS]
        try:
            st = dict(t=None, v={0: 'A', 1: 'B'}, own=set(), out=None)
            touched = False
            for x in body:
                if x.get('k') not in LOOPS and any(y.get('k') == 'mem' and y.get('m') == 'state_vector' for y in hf.walk(x)):
                    touched = True
                    ex(x, st.setdefault('env', {}), st)
            if not touched:
                raise Unknown()
            c.obligation('swap-transitions', 'swap_state_numbers', st['v'] == {0: 'B', 1: 'A'}, 'the transitions of the two states do not change places', fn.file, fn.l)
        except (Unknown, KeyError, TypeError, AttributeError, IndexError):
            c.undecide('swap-transitions', 'swap_state_numbers')
        try:
            inner = [x for i in loops for x in hf.walk(body[i]) if x.get('k') in LOOPS and not any(y is not x and y.get('k') in LOOPS for y in hf.walk(x))]
            inner = [x for x in inner if any(short(y.get('fn', '')) == 'get_target_state' for y in hf.walk(x) if y.get('k') == 'call')]
            if len(inner) != 1:
                raise Unknown()
            b = inner[0].get('body') or inner[0].get('b')
            for t, want in ((0, 1), (1, 0), (2, 2)):
                st = dict(t=t, v={}, own=set(), out=t)
                ex(b, {}, st)
                c.obligation('swap-target', 'swap_state_numbers: %s' % ['first state', 'second state', 'other state'][t], st['out'] == want,
                             'a transition to %s then leads to %s' % (['the first state', 'the second state', 'another state'][t], ['the first state', 'the second state', 'another state'][st['out']]), fn.file, fn.l)
        except (Unknown, KeyError, TypeError, AttributeError, IndexError):
            c.undecide('swap-target', 'swap_state_numbers')


# ------------------------------------------------------------------ removal while iterating
def check_removal(c, P, fns):
    n_e = 0
    R = roles.Roles(P)
    for fn in fns:
        loops = []

        def rec(n, stack):
            if isinstance(n, list):
                for x in n:
                    rec(x, stack)
                return
            if not isinstance(n, dict):
                return
            if n.get('k') == 'call' and short(n.get('fn', '')) == 'erase' and n.get('o') is not None and n.get('args'):
                loops.append((n, list(stack)))
            st2 = stack + [n] if n.get('k') in LOOPS else stack
            for k, v in n.items():
                if isinstance(v, (dict, list)):
                    rec(v, st2 if k == 'b' or n.get('k') not in LOOPS else stack)
        rec(fn.body, [])
        if not loops:
            continue
        C = cfg.CFG(fn)
        defs = R.fdefs(fn)
        for n, stack in loops:
            isvec = n.get('fn', '').startswith(('std::vector', 'std::basic_string', 'std::__cxx11::basic_string', 'std::deque'))
            site = '%s: %s.erase' % (fn.q.split('::')[-2] + '::' + fn.name if '::' in fn.q else fn.name, name_of(n['o']))
            a0 = n['args'][0]
            # (a) by position
            for L in reversed(stack):
                inc = L.get('inc')
                if L['k'] != 'for' or not isinstance(inc, dict):
                    continue
                iv = inc_var(inc)
                if iv is None or not any(r.get('k') == 'ref' and key(r.get('id')) == iv[0] for r in hf.walk(a0)):
                    continue
                plain = (ref(a0) or {}).get('id') is not None and key(ref(a0)['id']) == iv[0]
                isiter = 'iterator' in str(ref_type(a0, iv[0])) or plain and not isint(a0)
                if not isvec and not isiter:
                    continue
                if not isvec and not plain:
                    continue
                if iv[1] < 0 and isvec and (not plain or not isiter):
                    c.obligation('exact-removal', site, True)
                    n_e += 1
                    continue
                n_e += 1
                node, incn = C.of(n), C.of(inc)
                if node is None or incn is None:
                    continue

                # must not reach the increment without moving back or re-reading the position
                def resets(x):
                    if x is incn:
                        return False
                    for y in cfg.walk_expr(x.ast):
                        w = inc_var(y)
                        if w and w[0] == iv[0] and w[1] < 0:
                            return True
                        if y.get('k') in ('asg',) or y.get('k') == 'call' and y.get('op') == '=':
                            t = y.get('a') or y.get('o')
                            if (ref(t) or {}).get('id') is not None and key(ref(t)['id']) == iv[0]:
                                return 'asg'
                    return False
                asg = resets(node)
                if asg == 'asg' and isiter:
                    # it = c.erase(it), then it++ : skips one
                    good = C.after(node, lambda x: bool(resets(x)), None, [incn]) is None
                    c.obligation('exact-removal', site, good, 'after an element is removed the next one is skipped', fn.file, n.get('l'))
                    break
                w = C.after(node, lambda x: bool(resets(x)), None, [incn])
                if any(y.get('k') == 'un' and 'p++' == y.get('op') for y in hf.walk(a0)):
                    w = w if isvec else w
                c.obligation('exact-removal', site, w is None, 'after an element is removed the loop goes on to the one after the next', fn.file, n.get('l'))
                break
            else:
                # (b) positions collected beforehand
                col = collected(fn, defs, n, stack)
                if col is None or not isvec:
                    continue
                n_e += 1
                c.obligation('exact-removal', site, col, 'positions collected in a vector are removed front to back, so that all but the first have moved', fn.file, n.get('l'))
    return n_e


def isint(e):
    t = str(strip(e).get('t', ''))
    return any(x in t for x in ('int', 'long', 'size_t', 'short')) and 'iterator' not in t


def ref_type(e, i):
    for x in hf.walk(e):
        if x.get('k') == 'ref' and key(x.get('id')) == i:
            return x.get('t', '')
    return ''


def name_of(e):
    e = strip(e)
    return e.get('m') or e.get('n') or e.get('k')


def inc_var(n):
    """(variable, direction) of an increment or decrement"""
    n = strip(n)
    if not isinstance(n, dict):
        return None
    if n.get('k') == 'un' and ('++' in str(n.get('op')) or '--' in str(n.get('op'))):
        r = ref(n.get('e'))
        return (key(r['id']), 1 if '++' in n['op'] else -1) if r else None
    if n.get('k') == 'call' and n.get('op') in ('++', '--'):
        r = ref(n.get('o') or (n.get('args') or [None])[0])
        return (key(r['id']), 1 if n['op'] == '++' else -1) if r else None
    if n.get('k') == 'asg' and n.get('op') in ('+=', '-='):
        r = ref(n.get('a'))
        return (key(r['id']), 1 if n['op'] == '+=' else -1) if r else None
    return None


def collected(fn, defs, n, stack):
    """erase(x) where x comes from a collection of iterators: True back to front, False front to back, None otherwise"""
    r = ref(n['args'][0])
    src, back = None, None
    a = strip(n['args'][0])
    if r is not None and r.get('dk') == 'var':
        for d in defs.get(key(r['id']), []):
            rr = ref(d)
            if rr is not None:
                src = rr
            for x in hf.walk(d):
                if x.get('k') == 'call' and short(x.get('fn', '')) in ('top', 'back', 'front') and ref(x.get('o')):
                    src, back = ref(x['o']), short(x['fn']) != 'front'
        if src is not None and back is None:
            for L in reversed(stack):
                if L['k'] == 'rfor' and key(L['var'].get('id')) == key(r['id']):
                    back = False
                    break
    elif a.get('k') == 'call' and short(a.get('fn', '')) in ('top', 'back', 'front') and ref(a.get('o')):
        src, back = ref(a['o']), short(a['fn']) != 'front'
    elif a.get('k') in ('call', 'un') and (a.get('op') == '*'):
        it = ref(a.get('o') or a.get('e') or (a.get('args') or [None])[0])
        if it is not None:
            for d in defs.get(key(it['id']), []):
                for x in hf.walk(d):
                    if x.get('k') == 'call' and short(x.get('fn', '')) in ('begin', 'rbegin') and ref(x.get('o')):
                        src, back = ref(x['o']), short(x['fn']) == 'rbegin'
    if src is None or back is None:
        return None
    t = ''
    for m in hf.walk(fn.body):
        if m.get('k') == 'vardecl' and m.get('id') == src.get('id'):
            t = m.get('t') or ''
    if 'iterator' not in t:
        return None
    if 'std::set' in t or 'std::map' in t:
        return None
    return back


# ------------------------------------------------------------------ state numbers
def check_bounds(c, X, fns):
    for fn in fns:
        if fn.acc not in ('public', 0, None):
            continue
        fx = X.f(fn)
        ps = {key(p['id']): p['n'] for p in fn.params if 'unsigned int' in p['t'] or 'HfstState' in p['t']}
        for n in hf.walk(fn.body):
            i = b = None
            if n.get('k') == 'call' and n.get('op') == '[]' and n.get('args') and n.get('o') is not None:
                b, i = strip(n['o']), n['args'][0]
            if b is None or b.get('k') != 'mem' or b.get('m') != 'state_vector':
                continue
            r = ref(i)
            if r is None or key(r['id']) not in ps or not all(x.get('k') == 'this' for x in [strip(b.get('b') or {'k': 'this'})]):
                continue
            site = '%s(%s)' % (fn.name, ', '.join(p['n'] for p in fn.params))
            node = fx.C.of(n)
            if node is None:
                c.undecide('state-in-range', site)
                continue

            def ok_node(x):
                return any(y.get('k') == 'call' and short(y.get('fn', '')) in ('add_state', 'get_max_state', 'at') and any((ref(a) or {}).get('id') == r['id'] for a in y.get('args', []))
                           for y in cfg.walk_expr(x.ast)) and x is not node

            def ok_edge(x, lab):
                return x.kind == 'cond' and lab in (True, False) and range_test(x.ast, r['id'], lab)
            w = fx.C.before(node, ok_node, ok_edge)
            c.obligation('state-in-range', site, w is None, 'a state number given by the caller is used without checking that the state exists', fn.file, n.get('l'), path=w)


def range_test(cnd, vid, lab):
    cnd = strip(cnd)
    if not isinstance(cnd, dict) or cnd.get('k') != 'bin':
        return False
    op, a, b = cnd.get('op'), cnd['a'], cnd['b']
    has = lambda e: any(y.get('k') == 'call' and short(y.get('fn', '')) in ('size', 'get_max_state') for y in hf.walk(e))
    mx = lambda e: any(y.get('k') == 'call' and short(y.get('fn', '')) == 'get_max_state' for y in hf.walk(e))
    if (ref(b) or {}).get('id') == vid and has(a):
        a, b = b, a
        op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
    if (ref(a) or {}).get('id') != vid or not has(b):
        return False
    if mx(b):
        return (op, lab) in (('<=', True), ('<', True), ('>', False), ('>=', False))
    return (op, lab) in (('<', True), ('>=', False))


def check(c):
    R0 = hf.REPO + '/'
    P = hf.Program(['libhfst/src/implementations/HfstBasicTransducer.cc'])
    X = Ctx(P)
    fns = [f for f in P.fns.values() if f.cls == CLS and f.body is not None]
    c.floor('methods of HfstBasicTransducer', len(fns), 60)
    n = check_stores(c, X, fns)
    c.floor('sites that store a transition', n, 5)
    check_erase_alphabet(c, X, fns)
    check_bounds(c, X, fns)
    c.floor('transitions rebuilt', check_rewrites(c, X, fns), 3)
    check_each_once(c, X, fns)
    check_swap(c, X, fns)
    check_swap_targets(c, X, fns)
    check_used(c, X, fns)
    n = 0
    for f in fns:
        if f.name == 'add_substitution' or len(f.params) == 1 and 'substitution_data' in f.params[0]['t'] and any(x.get('k') == 'call' and short(x.get('fn', '')) == 'add_transition' for x in hf.walk(f.body)):
            n += subst.check(c, f, False)
        n += subst.data_sites(c, f)
    c.floor('sites of graph substitution', n, 1)
    n = sum(subst.counters(c, f) for f in fns)
    c.floor('variables that count states', n, 3)
    # add_transition makes both states and registers both symbols
    for f in [f for f in fns if f.name == 'add_transition']:
        fx = X.f(f)
        site = 'add_transition'
        st = [n for n in hf.walk(f.body) if n.get('k') == 'call' and short(n.get('fn', '')) in ('push_back', 'emplace_back', 'insert') and 'Transition' in n.get('fn', '')]
        adds = [n for n in hf.walk(f.body) if n.get('k') == 'call' and short(n.get('fn', '')) == 'add_state']
        for p, what in ((0, 'source'), (1, 'target')):
            pid = key(f.params[p]['id'])
            hit = [n for n in adds if n.get('args') and any(x.get('k') == 'ref' and key(x.get('id')) == pid for x in deep(fx, n['args'][0]))]
            good = bool(hit) and any(not conds_of(fx, h) for h in hit)
            c.obligation('states-created', 'add_transition: %s state' % what, good, 'the %s state of an added transition is not created' % what, f.file, f.l)
    for nm in ('set_final_weight',):
        for f in [f for f in fns if f.name == nm]:
            fx = X.f(f)
            pid = key(f.params[0]['id'])
            hit = [n for n in hf.walk(f.body) if n.get('k') == 'call' and short(n.get('fn', '')) == 'add_state' and any((ref(a) or {}).get('id') is not None and key(ref(a)['id']) == pid for a in n.get('args', []))]
            c.obligation('states-created', nm, bool(hit) and any(not conds_of(fx, h) for h in hit), 'the state made final is not created', f.file, f.l)
    # copies
    rec = P.recs.get(CLS)
    if rec:
        fields = [fl['n'] for fl in rec['fields'] if not fl.get('static')]
        for f in fns:
            if f.name in ('operator=', 'HfstBasicTransducer') and len(f.params) == 1 and 'HfstBasicTransducer' in f.params[0]['t']:
                got = set()
                pid = key(f.params[0]['id'])
                for i in f.inits or []:
                    if i.get('n') or i.get('m'):
                        if any(x.get('k') == 'ref' and key(x.get('id')) == pid for x in hf.walk(i['e'])):
                            got.add(i.get('n') or i.get('m'))
                whole = False
                for n in hf.walk(f.body):
                    t, v = (n.get('a'), n.get('b')) if n.get('k') == 'asg' else (n.get('o'), (n.get('args') or [None])[0]) if n.get('k') == 'call' and n.get('op') == '=' else (None, None)
                    if t is not None and strip(t).get('k') == 'mem' and strip(t).get('m') in fields and v is not None:
                        if any(x.get('k') == 'mem' and x.get('m') == strip(t)['m'] and any(y.get('k') == 'ref' and key(y.get('id')) == pid for y in hf.walk(x)) for x in hf.walk(v)):
                            got.add(strip(t)['m'])
                    if n.get('k') == 'call' and (short(n.get('fn', '')) in ('assign', 'operator=') or n.get('op') == '=') and CLS in n.get('fn', '') \
                            and any((ref(a) or {}).get('id') is not None and key(ref(a)['id']) == pid for a in n.get('args', [])):
                        whole = True
                    if n.get('k') == 'call' and short(n.get('fn', '')) == 'swap':
                        whole = True
                for fl in fields:
                    c.obligation('copy-complete', '%s: %s' % (f.name, fl), whole or fl in got, 'the copy does not take over %s' % fl, f.file, f.l)
        c.floor('data members', len(fields), 3)
    # removal, over the whole library
    L = []
    for pat in ('libhfst/src/*.cc', 'libhfst/src/implementations/*.cc', 'libhfst/src/implementations/optimized-lookup/*.cc', 'libhfst/src/parsers/*.cc'):
        L += sorted(f[len(R0):] for f in glob.glob(R0 + pat))
    L = [f for f in L if not os.path.basename(f).startswith(('HfstXeroxRulesTest', 'MyTransducerLibrary', 'XfsmTransducer'))]
    PA = hf.Program(L)
    n = check_removal(c, PA, [f for f in PA.fns.values() if f.body is not None])
    c.floor('removals in loops', n, 3)


def deep(fx, e, seen=None):
    seen = set() if seen is None else seen
    for x in hf.walk(e):
        yield x
        if x.get('k') == 'ref' and x.get('dk') == 'var':
            i = key(x.get('id'))
            if i not in seen:
                seen.add(i)
                for d in fx.defs.get(i, []):
                    yield from deep(fx, d, seen)


chk.main('C10', check, 'every site of HfstBasicTransducer that stores a transition, removes a symbol from the alphabet or indexes the states; every removal '
         'from a container inside a loop, over the whole library')
