#!/usr/bin/env python3
"""C09: conversions copy every transition, final state and symbol, each field in its role, with shared symbol numbers."""
import sys, os, glob
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import hf, chk, roles
from absint import short
from roles import key

ADD = ('add_transition', 'AddArc', 'fsm_construct_add_arc', 'fsm_construct_add_arc_nums', 'add_arc')
FIN = ('SetFinal', 'set_final_weight', 'fsm_construct_set_final', 'set_final')
SYM = ('add_symbol_to_alphabet', 'AddSymbol', 'add_symbol', 'fsm_construct_add_symbol')
LOOPS = ('for', 'while', 'rfor', 'do')
NAMES = dict(zip(('src', 'tgt', 'in', 'out', 'w', 'fw'), ('source state', 'target state', 'input', 'output', 'weight', 'final weight')))


def isadd(n):
    return n.get('k') == 'call' and short(n.get('fn', '')) in ADD


def isfin(n):
    return n.get('k') == 'call' and short(n.get('fn', '')) in FIN


def issym(n):
    if n.get('k') != 'call':
        return False
    s = short(n.get('fn', ''))
    return s in SYM or s == 'insert' and (n.get('o') or {}).get('k') == 'mem' and (n['o'].get('m') or '') == 'alphabet'


class Conv:
    def __init__(self, P, R, funcs):
        self.P, self.R, self.funcs = P, R, funcs
        self.memo = {}

    # does n always perform the action (pred) when evaluated as a whole?
    def performs(self, n, pred, allow, seen=()):
        """'yes' performed on every path, 'no' some path completes without it, 'never' not mentioned"""
        if n is None:
            return 'never'
        for x in hf.walk(n):
            if pred(x):
                return 'yes'
            if x.get('k') == 'call' and x.get('u') in self.funcs and x['u'] not in seen:
                if self.stmts([self.funcs[x['u']].body], pred, allow, seen + (x['u'],)) == 'yes':
                    return 'yes'
        return 'never'

    def mentions(self, n, pred, seen=()):
        for x in hf.walk(n):
            if pred(x):
                return True
            if x.get('k') == 'call' and x.get('u') in self.funcs and x['u'] not in seen:
                if self.mentions(self.funcs[x['u']].body, pred, seen + (x['u'],)):
                    return True
        return False

    def stmts(self, lst, pred, allow, seen=()):
        """'yes': performed on every path that completes (normally, by continue or by return)
           ('no', node): a path completes without it because of node; 'never': not mentioned; 'open': not yet performed, falls through"""
        pend = None
        for st in lst:
            if st is None:
                continue
            k = st.get('k')
            if k == 'block':
                r = self.stmts(st.get('s', []), pred, allow, seen)
            elif k == 'if':
                if self.mentions(st['c'], pred, seen):
                    return 'yes'
                a = self.stmts([st.get('a')], pred, allow, seen)
                b = self.stmts([st.get('b')] if st.get('b') else [], pred, allow, seen)
                if isinstance(a, tuple) and a[0] == 'no':
                    return a
                if isinstance(b, tuple) and b[0] == 'no':
                    return b
                if a == 'left' and b == 'left':
                    return 'left'
                if a == 'yes' and b in ('yes', 'left') or b == 'yes' and a == 'left':
                    return 'yes'
                if 'exit' in (a, b):
                    x = allow(st['c'], a == 'exit')
                    if x is False:
                        return ('no', st)
                    r = 'never'
                elif 'yes' in (a, b):
                    x = allow(st['c'], b == 'yes')
                    if x is True:
                        return 'yes'
                    pend = pend or ('no' if x is False else 'undecided', st)
                    r = 'never'
                else:
                    r = 'never'
            elif k in ('continue', 'return', 'break'):
                if k == 'return' and self.mentions(st, pred, seen):
                    return 'yes'
                return 'exit'
            elif k in ('throw',):
                return 'left'
            elif k in LOOPS:
                r = 'yes' if self.mentions(st, pred, seen) else 'never'
            else:
                r = self.performs(st, pred, allow, seen)
            if r == 'exit':
                return pend or 'exit'
            if r == 'left':
                return 'left'
            if r == 'yes' or isinstance(r, tuple):
                return r
        return pend or 'never'


def norm(n):
    """structure of a condition without locations"""
    if isinstance(n, dict):
        return tuple((k, norm(v)) for k, v in sorted(n.items()) if k not in ('l', 'nid', 't', 'id'))
    if isinstance(n, list):
        return tuple(norm(x) for x in n)
    return n


def negation(a, b):
    fl = {'==': '!=', '!=': '=='}
    if a.get('k') == 'un' and a.get('op') == '!':
        return norm(a['e']) == norm(b)
    if b.get('k') == 'un' and b.get('op') == '!':
        return norm(b['e']) == norm(a)
    if a.get('k') == b.get('k') == 'bin' and fl.get(a.get('op')) == b.get('op'):
        return norm({**a, 'op': ''}) == norm({**b, 'op': ''})
    return False


def strip(n):
    while isinstance(n, dict) and n.get('k') in ('cast', 'paren'):
        n = n.get('e')
    return n


def lit(n):
    n = strip(n)
    return n.get('v') if isinstance(n, dict) and type(n.get('v')) in (int, bool, float) else None


def parents(body):
    par = {}
    st = [body]
    while st:
        n = st.pop()
        for v in n.values():
            for x in (v if isinstance(v, list) else [v]):
                if isinstance(x, dict):
                    par[id(x)] = n
                    st.append(x)
    return par


def chain(par, n, root):
    out = []
    while n is not root and id(n) in par:
        p = par[id(n)]
        out.append((p, n))
        n = p
    return out


def slice_vars(R, fn, e, seen=None):
    """local variables an expression is computed from"""
    seen = set() if seen is None else seen
    for x in hf.walk(e):
        if x.get('k') == 'ref' and x.get('dk') in ('var', 'parm'):
            i = key(x.get('id'))
            if i in seen:
                continue
            seen.add(i)
            for d in R.fdefs(fn).get(i, []):
                slice_vars(R, fn, d, seen)
    return seen


def modified(node):
    """ids of variables assigned, incremented, declared or advanced in a subtree"""
    out = {}
    for x in hf.walk(node):
        i = None
        if x.get('k') == 'vardecl':
            i = x['id']
        elif x.get('k') == 'un' and x.get('op') in ('++', '--', '++post', 'post++', 'p++') or x.get('k') == 'un' and '++' in str(x.get('op')):
            i = (strip(x.get('e')) or {}).get('id')
        elif x.get('k') == 'asg':
            i = (strip(x.get('a')) or {}).get('id')
        elif x.get('k') == 'call' and x.get('op') in ('++', '--', '=', '+=') and x.get('o'):
            i = (strip(x['o']) or {}).get('id')
        elif x.get('k') == 'call' and x.get('o') and short(x.get('fn', '')) in ('Next', 'pop_back'):
            i = (strip(x['o']) or {}).get('id')
        elif x.get('k') == 'rfor':
            i = x['var'].get('id')
        if i is not None:
            out.setdefault(key(i), []).append(x)
    return out


def starts_at_begin(loop):
    """False when an iterator loop provably does not start at begin() or stops before end()"""
    i = loop.get('i')
    if loop.get('k') != 'for' or i is None:
        return True
    for v in (i.get('vars') or []):
        e = strip(v.get('init'))
        while isinstance(e, dict) and e.get('k') == 'ctor' and len(e.get('args', [])) == 1:
            e = strip(e['args'][0])
        if e is None:
            continue
        if e.get('k') == 'call' and short(e.get('fn', '')) in ('begin', 'cbegin'):
            continue
        if any(x.get('k') == 'call' and short(x.get('fn', '')) in ('begin', 'cbegin') for x in hf.walk(e)):
            return False
    c = loop.get('c')
    if c is not None:
        for x in hf.walk(c):
            if x.get('k') == 'call' and short(x.get('fn', '')) in ('operator-', 'prev') or x.get('op') in ('-', '--'):
                if any(y.get('k') == 'call' and short(y.get('fn', '')) in ('end', 'cend') for y in hf.walk(x)):
                    return False
    return True


def direct_target(n):
    n = strip(n)
    if n is None:
        return False
    if n.get('k') == 'mem' and roles.mname(n) == 'nextstate':
        return True
    return n.get('k') == 'call' and n.get('fn', '').rsplit('::', 1)[-1] == 'get_target_state'


def check(c):
    R0 = hf.REPO + '/'
    L = []
    for pat in ('libhfst/src/*.cc', 'libhfst/src/implementations/*.cc', 'libhfst/src/implementations/optimized-lookup/*.cc'):
        L += sorted(f[len(R0):] for f in glob.glob(R0 + pat))
    L = [f for f in L if not os.path.basename(f).startswith(('HfstXeroxRulesTest', 'MyTransducerLibrary', 'XfsmTransducer'))]
    P = hf.Program(L)
    R = roles.Roles(P)
    # ---- roles, everywhere in the library
    nsink = 0
    for f in P.fns.values():
        if f.body is None:
            continue
        nodes = list(hf.walk(f.body)) + [x for i in (f.inits or []) for x in hf.walk(i['e'])]
        for x in nodes:
            s = R.sink(x)
            if not s:
                continue
            d = dict(s[1])
            if direct_target(d.get('tgt')):
                # a transition that leads where another one leads stands for it: its weight is not a constant, unless it is carried otherwise
                w = strip(d.get('w'))
                if w is not None and not any('w' in R.atoms(f, a) for _, a in s[1]):
                    c.obligation('field-role', '%s %s(weight kept)' % (f.q, s[0]), w.get('k') not in ('int', 'flt'),
                                 'the transition leads where another one leads, but has a constant weight instead of its weight', f.file, x.get('l'))
            for role, a in s[1]:
                nsink += 1
                at = R.atoms(f, a) - {'src', 'fw'}
                if 'markers' in f.name and at == {'w'}:
                    continue          # the marker symbol spells the weight
                site = '%s %s(%s)' % (f.q, s[0], NAMES[role])
                if at and role not in at:
                    c.obligation('field-role', site, False, 'the %s is computed from the %s' % (NAMES[role], '/'.join(NAMES[r] for r in sorted(at))),
                                 f.file, x.get('l'))
                else:
                    c.obligation('field-role', site, True)
    c.floor('transition-building sites', nsink, 400)

    # ---- conversions
    cf = {f.u: f for f in P.fns.values() if os.path.basename(f.file).startswith('Convert') and f.file.endswith('.cc') and f.body is not None}
    V = Conv(P, R, cf)
    isconv = [f for f in cf.values() if '_to_' in f.name and 'hfst_transducer' not in f.name and f.name != 'hfst_state_to_state_id'
              and V.mentions(f.body, isadd)]
    weighted = lambda f: any(t in f.name for t in ('tropical', 'log', 'ol'))

    def closure(f, acc):
        if f.u in acc:
            return acc
        acc[f.u] = f
        for n in P.calls(f):
            if n.get('u') in cf:
                closure(cf[n['u']], acc)
        return acc
    inside = {u for f in isconv for u in closure(f, {}) if u != f.u}
    nconv = 0
    for f in [f for f in isconv if f.u not in inside]:
        nconv += 1
        cl = closure(f, {})
        guards = []
        nloops = 0
        for g in cl.values():
            par = parents(g.body)

            def allow_arc(cond, negated):
                # "no transition on this line" (foma) is the only reason to pass over an entry
                at = R.atoms(g, cond)
                vals = [lit(x) for x in hf.walk(cond) if lit(x) is not None]
                if 'tgt' in at and -1 in vals:
                    return True
                return False

            adds = [n for n in hf.walk(g.body) if isadd(n) or n.get('k') == 'call' and n.get('u') in cf and n['u'] != g.u and '_to_' not in cf[n['u']].name
                    and V.mentions(cf[n['u']].body, isadd) and not any(m.get('k') in LOOPS and V.mentions(m, isadd) for m in hf.walk(cf[n['u']].body))]
            inner = []
            for n in adds:
                ch = chain(par, n, g.body)
                lp = [(i, p) for i, (p, _) in enumerate(ch) if p.get('k') in LOOPS and lit(p.get('c')) not in (0, False)]
                if not lp:
                    continue
                li, loop = lp[0]
                if any(loop is m for m in inner):
                    continue
                inner.append(loop)
                nloops += 1
                site = '%s' % f.q.split('::')[-1]
                r = V.stmts([loop['b']], isadd, allow_arc)
                if r == 'yes':
                    c.obligation('every-transition', site, True)
                elif isinstance(r, tuple) and r[0] == 'no' or r == 'exit':
                    nd = r[1] if isinstance(r, tuple) else loop
                    c.obligation('every-transition', site, False, 'an iteration of the loop over the transitions can end without copying the transition',
                                 g.file, nd.get('l'))
                else:
                    c.undecide('every-transition', site)
                if not starts_at_begin(loop):
                    c.obligation('whole-range', site, False, 'the loop over the transitions does not cover all of them', g.file, loop.get('l'))
                else:
                    c.obligation('whole-range', site, True)
                br = [x for x in walk_loop(loop['b']) if x.get('k') in ('break', 'return')]
                c.obligation('every-transition', site + ' (no early end)', not br, 'the loop over the transitions is left early', g.file, br[0].get('l') if br else None)
                # outer loops and the conditions between them and the inner loop
                for i2, outer in lp[1:]:
                    conds = []
                    for p, ch_ in ch[li + 1:i2]:
                        if p.get('k') == 'if' and not is_sub(p.get('c'), ch_):
                            conds.append((p['c'], p.get('a') is ch_))
                    # 'if (c) continue;' before the inner loop guards it as well
                    for st in (outer['b'].get('s', []) if outer.get('b', {}).get('k') == 'block' else []):
                        if any(y is loop for y in hf.walk(st)):
                            break
                        if st.get('k') == 'if' and not st.get('b'):
                            s = st.get('a') or {}
                            while s.get('k') == 'block' and len(s.get('s', [])) == 1:
                                s = s['s'][0]
                            if s.get('k') == 'continue':
                                conds.append((st['c'], False))
                    guards.append((g, outer, conds, loop))
                    if not starts_at_begin(outer):
                        c.obligation('whole-range', site, False, 'the loop over the states does not cover all of them', g.file, outer.get('l'))
                # source state
                if isadd(n) and n.get('args'):
                    sidx = 1 if short(n['fn']).startswith('fsm_') else 0
                    e = n['args'][sidx] if short(n['fn']) != 'add_arc' else n.get('o')
                    at = R.atoms(g, e)
                    if 'src' not in at and len(lp) > 1:
                        outer = lp[1][1]
                        sv = slice_vars(R, g, e)
                        mo = modified(outer)
                        mi = modified(loop)
                        hit = sv & set(mo)
                        # a map or vector looked up is only written, not what selects the state
                        if not hit:
                            c.obligation('source-state', site, False, 'the source state does not change from one state to the next', g.file, n.get('l'))
                        else:
                            good, why = True, ''
                            for v in hit:
                                incs = [x for x in mo[v] if x.get('k') == 'un' and '++' in str(x.get('op'))]
                                if incs and len(incs) == len(mo[v]):
                                    # a counter: once per state, on every path, not per transition
                                    inn = [x for x in incs if any(y is x for y in hf.walk(loop))]
                                    if inn:
                                        good, why = False, 'the source state counter advances within the loop over the transitions'
                                    else:
                                        ids = {id(x) for x in incs}
                                        r = V.stmts([outer['b']] + ([outer['inc']] if isinstance(outer.get('inc'), dict) else []), lambda x: id(x) in ids, lambda cnd, ng: False)
                                        if r != 'yes':
                                            good, why = False, 'the source state counter does not advance for every state'
                                        elif len(incs) > 1:
                                            good, why = None, ''
                            if good is None:
                                c.undecide('source-state', site)
                            else:
                                c.obligation('source-state', site, good, why, g.file, n.get('l'))
                    # source and target renumbered alike
                    tg = None
                    for y in hf.walk(n):
                        sk = R.sink(y)
                        for role, a in (sk[1] if sk else []):
                            if role == 'tgt':
                                tg = tg or a
                    vs, vt = ref(e), ref(tg) if tg else None
                    if vs and tg is not None:
                        ps = renumbering(lp[1][1]['b'], vs['id']) if len(lp) > 1 else None
                        pt = renumbering(loop['b'], vt['id']) if vt else None
                        plain = lambda q: all(len(R.fdefs(g).get(key(y['id']), [])) < 2 for y in [ref(q)] if y) and not any(y.get('k') == 'cond' or y.get('k') == 'call' and y.get('u') in P.fns and y['u'] in cf for y in deep(R, g, q))
                        if ps and pt:
                            c.obligation('same-numbers', site, ps == pt, 'the source state and the target state of a transition are renumbered in different ways',
                                         g.file, n.get('l'))
                            for pp in (ps, pt):
                                ks, vsx = {q[0] for q, _ in pp}, {r for _, r in pp}
                                if vsx == ks:
                                    c.obligation('same-numbers', site + ' (permutation)', True)
                                elif len(vsx) < len(ks):
                                    c.obligation('same-numbers', site + ' (permutation)', False, 'two states are given the same number', g.file, n.get('l'))
                        elif ps and plain(tg) or pt and plain(e):
                            c.obligation('same-numbers', site, False, 'only one of the source state and the target state is renumbered', g.file, n.get('l'))
                    for y in (hf.walk(lp[1][1]['b']) if len(lp) > 1 else []):
                        if isfin(y) and short(y['fn']) == 'set_final_weight' and vs and y.get('args'):
                            vf = ref(y['args'][0])
                            if vf:
                                c.obligation('same-numbers', site + ' (final state)', vf['id'] == vs['id'] or not slice_vars(R, g, e) & slice_vars(R, g, y['args'][0])
                                             or plain_alias(R, g, vf, vs), 'the final state is not numbered as the source state of the transitions', g.file, y.get('l'))
                # fields present
                for x in hf.walk(n):
                    s = R.sink(x)
                    if not s:
                        continue
                    for role, a in s[1]:
                        at = R.atoms(g, a)
                        if role == 'w' and not weighted(f):
                            continue
                        if not at and lit(a) is not None and not (role == 'w' and 'foma' in f.name):
                            c.obligation('field-copied', '%s %s' % (site, NAMES[role]), False, 'the %s of the transition is not copied' % NAMES[role], g.file, x.get('l'))
                        elif role in at:
                            c.obligation('field-copied', '%s %s' % (site, NAMES[role]), True)
        if nloops == 0:
            c.undecide('every-transition', f.q, 'no loop over transitions recognised')
        # guards on states must be exhaustive
        byloop = {}
        for g, outer, conds, loop in guards:
            for cnd, pos in conds:
                comp = any(negation(cnd, c2) and p2 == pos or norm(cnd) == norm(c2) and p2 != pos
                           for g2, o2, cs2, l2 in guards for c2, p2 in cs2 if l2 is not loop)
                if comp:
                    c.obligation('every-state', f.name, True)
                else:
                    vis = any(x.get('k') == 'call' and ('visited' in short(x.get('fn', '')) or short(x.get('fn', '')) in ('NumArcs', 'empty', 'size', 'begin')) for x in hf.walk(cnd)) or 'find' in str(norm(cnd))
                    if vis:
                        c.undecide('every-state', f.name, 'guard on states')
                    else:
                        c.obligation('every-state', f.name, False, 'states are passed over on a condition that no other loop complements', g.file, cnd.get('l'))
            if not conds:
                br = [x for x in walk_loop(outer['b']) if x.get('k') in ('break', 'return')]
                cn = [x for x in walk_loop(outer['b']) if x.get('k') == 'continue']
                r = 'yes'
                if not br and cn:
                    # a 'continue' matters only where the transitions have not been copied yet
                    def allow_state(cond, negated):
                        empty = any(short(y.get('fn', '')) in ('NumArcs', 'empty', 'size', 'begin') for y in hf.walk(cond) if y.get('k') == 'call')
                        return None if empty and all(lit(y) in (None, 0) for y in hf.walk(cond)) else False
                    r = V.stmts([outer['b']], lambda x: x is loop, allow_state)
                if r not in ('yes', 'exit') and not (isinstance(r, tuple) and r[0] == 'no') and not br:
                    c.undecide('every-state', f.name, 'states without transitions passed over')
                    continue
                bad = br or (r != 'yes' and cn)
                c.obligation('every-state', f.name, not bad, 'the loop over the states is left early', g.file, bad[0].get('l') if bad else None)
        # the start state becomes state 0
        for g in cl.values():
            par = parents(g.body)
            for n in hf.walk(g.body):
                if n.get('k') == 'call' and short(n.get('fn', '')) == 'swap_state_numbers':
                    good = None if any(p.get('k') in LOOPS for p, _ in chain(par, n, g.body)) else True
                    for p, ch_ in chain(par, n, g.body):
                        if p.get('k') == 'if' and p.get('a') is ch_:
                            for cj in conjuncts(p['c']):
                                if not isinstance(cj, dict) or cj.get('k') != 'bin':
                                    continue
                                v = lit(cj['b'])
                                if v is not None and cj['op'] in ('>', '>=', '!=', '==', '<', '<='):
                                    good = good and (cj['op'], v) in (('!=', 0), ('>', 0), ('>=', 1), ('!=', -1), ('>=', 0), ('>', -1))
                    if good is None:
                        c.undecide('start-state', f.name)
                    else:
                        c.obligation('start-state', f.name, good, 'a start state other than 0 is not always made state 0', g.file, n.get('l'))
        # final states
        fin_ok(c, V, R, P, f, cl, weighted(f))
        # alphabet
        sy = [(g, x) for g in cl.values() for x in hf.walk(g.body) if issym(x)]
        inl = []
        for g, x in sy:
            par = parents(g.body)
            ch = chain(par, x, g.body)
            if any(p.get('k') in LOOPS and lit(p.get('c')) not in (0, False) for p, _ in ch):
                inl.append((g, x, ch))
        if not inl:
            if 'hfst_ol' in f.name and f.name.endswith('hfst_ol'):
                continue
            c.obligation('alphabet-copied', f.name, False, 'the symbols of the alphabet are not copied', f.file, f.l)
            continue
        def allow_sym(cond, negated):
            if any(y.get('k') == 'null' for y in hf.walk(cond)):
                return True
            if any(lit(y) in (-1, 4294967295) or 'kNoStateId' in str(y.get('n', '')) for y in hf.walk(cond)):
                return None          # the transducer without states is dealt with apart
            return None
        r = V.stmts([f.body], issym, allow_sym)
        if r == 'yes':
            c.obligation('alphabet-copied', f.name + ' (every path)', True)
        elif isinstance(r, tuple) and r[0] == 'undecided' and any(issym(y) for y in hf.walk(f.body)):
            c.undecide('alphabet-copied', f.name + ' (every path)')
        else:
            c.obligation('alphabet-copied', f.name + ' (every path)', False, 'the symbols of the alphabet are not copied on some path', f.file, f.l)
        for g, x, ch in inl:
            bad = None
            for p, child in ch:
                if p.get('k') in LOOPS:
                    if not starts_at_begin(p):
                        bad = p
                    break
                if p.get('k') == 'if' and not is_sub(p.get('c'), child) and not symguard(p['c'], R):
                    bad = p
            if bad is not None and len(inl) > 1 and any(b is not x for _, b, _ in inl):
                c.undecide('alphabet-copied', f.name)
            else:
                c.obligation('alphabet-copied', f.name, bad is None, 'some symbols of the alphabet are passed over', g.file, (bad or x).get('l'))
            # shared numbers
            if f.name.startswith('hfst_basic') and short(x['fn']) in ('AddSymbol', 'add_symbol'):
                at = [y for a in x.get('args', [])[1:] for y in deep(R, g, a) if y.get('k') == 'call' and short(y.get('fn', '')) in ('get_symbol_number', 'get_number')]
                c.obligation('shared-numbers', f.name, bool(at), 'symbols are not given the numbers shared by all transducers, so that two converted transducers '
                             'do not agree on their symbols', g.file, x.get('l'))
    c.floor('conversions', nconv, 8)


def ref(n):
    n = strip(n)
    while isinstance(n, dict) and n.get('k') == 'ctor' and len(n.get('args', [])) == 1:
        n = strip(n['args'][0])
    return n if isinstance(n, dict) and n.get('k') == 'ref' and n.get('dk') in ('var', 'parm') else None


def bare(n):
    """structure without casts"""
    if isinstance(n, dict):
        if n.get('k') in ('cast', 'paren') and isinstance(n.get('e'), dict):
            return bare(n['e'])
        return tuple((k, bare(v)) for k, v in sorted(n.items()) if k not in ('l', 'nid', 't'))
    if isinstance(n, list):
        return tuple(bare(x) for x in n)
    return n


def renumbering(body, v):
    """[(value compared with, number given)] of an if-chain that only assigns v, or None"""
    best = None
    for x in hf.walk(body):
        if x.get('k') != 'if':
            continue
        arms, n, ok = [], x, True
        while isinstance(n, dict) and n.get('k') == 'if':
            c = strip(n['c'])
            s = n.get('a')
            while isinstance(s, dict) and s.get('k') == 'block' and len(s.get('s', [])) == 1:
                s = s['s'][0]
            s = strip(s)
            if not isinstance(s, dict) or s.get('k') in ('nop', None) or s.get('k') == 'block' and not s.get('s'):
                n = n.get('b')
                continue
            cj = [q for q in conjuncts(c) if isinstance(q, dict)]
            eq = [q for q in cj if q.get('k') == 'bin' and q.get('op') == '==']
            if not (eq and isinstance(s, dict) and s.get('k') == 'asg' and (ref(s.get('a')) or {}).get('id') == v):
                ok = False
                break
            arms.append((eq[0], tuple(bare(q) for q in cj if q is not eq[0]), s.get('b')))
            n = n.get('b')
        if not ok or not arms:
            continue
        ops = [{bare(c['a']), bare(c['b'])} for c, _, _ in arms]
        common = set.intersection(*ops)
        if len(common) == 2:
            common = {bare(q) for q in (arms[0][0]['a'], arms[0][0]['b']) if (ref(q) or {}).get('id') == v}
        if len(common) != 1:
            continue
        raw = next(iter(common))
        pairs = {((next(iter(o - {raw})),) + ex, bare(b)) for o, (_, ex, b) in zip(ops, arms)}
        if best is None or len(pairs) > len(best):
            best = pairs
    return best


def plain_alias(R, fn, a, b):
    for x, y in ((a, b), (b, a)):
        d = R.fdefs(fn).get(key(x['id']), [])
        if len(d) == 1 and (ref(d[0]) or {}).get('id') == y['id']:
            return True
    return False


def deep(R, fn, e, seen=None):
    seen = set() if seen is None else seen
    for x in hf.walk(e):
        yield x
        if x.get('k') == 'ref' and x.get('dk') == 'var':
            i = key(x.get('id'))
            if i not in seen:
                seen.add(i)
                for d in R.fdefs(fn).get(i, []):
                    yield from deep(R, fn, d, seen)


def symguard(cond, R):
    """conditions that only leave out special symbols or symbols already there"""
    names = [short(x.get('fn', '')) for x in hf.walk(cond) if x.get('k') == 'call']
    vals = [lit(x) for x in hf.walk(cond) if lit(x) is not None]
    if any(n in ('is_epsilon', 'is_unknown', 'is_identity', 'count', 'find', 'fsm_construct_check_symbol') for n in names):
        return True
    if vals and all(v in (0, -1) for v in vals):
        return True
    return any(x.get('k') == 'null' for x in hf.walk(cond)) or not vals and not names


def is_sub(c, n):
    return c is n


def walk_loop(n):
    """statements of a loop body, not those of nested loops"""
    if not isinstance(n, dict):
        return
    yield n
    if n.get('k') in LOOPS and lit(n.get('c')) not in (0, False) or n.get('k') == 'switch':
        return
    for v in n.values():
        for x in (v if isinstance(v, list) else [v]):
            if isinstance(x, dict):
                yield from walk_loop(x)


def fin_ok(c, V, R, P, f, cl, weighted):
    found = False
    for g in cl.values():
        par = parents(g.body)
        for n in hf.walk(g.body):
            if not isfin(n):
                continue
            found = True
            site = f.name
            ch = chain(par, n, g.body)
            bad = None
            for p, child in ch:
                if p.get('k') in LOOPS:
                    break
                if p.get('k') == 'if' and not is_sub(p.get('c'), child):
                    for cj in (conjuncts(p['c']) if p.get('a') is child else [p['c']]):
                        if not finguard(cj, R, g) or part_of_weights(cj):
                            bad, badc = p, cj
            if bad is not None:
                extra = badc is not bad['c'] and not any(lit(y) == -1 for y in hf.walk(badc)) and not any(y.get('k') == 'null' for y in hf.walk(badc))
                if state_guard(badc, R, g) and not part_of_weights(badc) and not extra:
                    c.undecide('final-states', site)
                else:
                    c.obligation('final-states', site, False, 'final states are passed over', g.file, bad.get('l'))
            else:
                c.obligation('final-states', site, True)
            s = short(n['fn'])
            if s in ('SetFinal', 'set_final_weight') and weighted and len(n.get('args', [])) >= 2:
                at = R.atoms(g, n['args'][1])
                if at & {'fw', 'w'}:
                    c.obligation('final-weight', site, True)
                elif lit(n['args'][1]) is not None:
                    c.obligation('final-weight', site, False, 'the final weight is not copied', g.file, n.get('l'))
                else:
                    c.undecide('final-weight', site)
    if not found and not f.name.endswith('hfst_ol'):
        c.obligation('final-states', f.name, False, 'final states are not copied', f.file, f.l)


def conjuncts(n):
    n = strip(n)
    if isinstance(n, dict) and n.get('k') == 'bin' and n.get('op') == '&&':
        return conjuncts(n['a']) + conjuncts(n['b'])
    return [n]


def part_of_weights(cond):
    cond = strip(cond)
    if isinstance(cond, dict) and cond.get('k') == 'bin' and cond.get('op') in ('<', '>', '<=', '>='):
        if lit(cond['a']) is not None or lit(cond['b']) is not None:
            return any(y.get('k') == 'call' and short(y.get('fn', '')) in ('Final', 'get_final_weight') for y in hf.walk(cond))
    return False


def finguard(cond, R, g):
    for x in hf.walk(cond):
        if x.get('k') == 'call' and short(x.get('fn', '')) in ('Final', 'is_final', 'final', 'is_final_state'):
            return True
        if x.get('k') == 'mem' and (x.get('m') or '') in ('final_state', 'final'):
            return True
        if x.get('k') == 'ref' and x.get('dk') == 'var':
            for d in R.fdefs(g).get(key(x.get('id')), []):
                if d is not cond and finguard(d, R, g):
                    return True
    return False


def state_guard(cond, R, g):
    return True if cond.get('k') == 'bin' and cond.get('op') in ('==', '!=', '>=', '<') else any(
        x.get('k') == 'call' and short(x.get('fn', '')) in ('was_visited', 'indexes_transition_index_table') for x in hf.walk(cond))


chk.main('C09', check, 'every site of the library that builds a transition (constructor, arc, member assignment) is checked for the provenance of each field; '
         'every conversion between HfstBasicTransducer and a native type is checked to copy every transition of every state, every final state with its '
         'weight and the alphabet, and to use the shared symbol numbers')
