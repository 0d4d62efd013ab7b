#!/usr/bin/env python3
"""C05: flag diacritics (@P/N/R/D/C/U.FEATURE[.VALUE]@) follow the documented semantics.

Abstract interpretation of both flag engines (FdState, used by optimized lookup / pmatch /
path extraction, and FlagDiacriticTable, used by lookup on basic transducers) over the
finite partition {unset, +v, -v, +w, -w} of the current feature setting x 6 operators x
{value given, no value}; the abstract transfer function must equal the specification.
Recognition of flag symbols and the letter -> operator maps are decided the same way."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import hf, chk
from absint import A, St, Hooks, K, isk, mkeq, mkneg, add, short, TOP, contains

V = ('sym', 'v'); W = ('sym', 'w'); F = ('sym', 'feat'); SYM = ('sym', 'symbol')
CUR = ['unset', '+v', '-v', '+w', '-w']
NP = 18446744073709551615


def spec(op, hasv, cur):
    """(allowed, new setting)"""
    if op == 'P':
        return True, '+v'
    if op == 'N':
        return True, '-v'
    if op == 'C':
        return True, 'unset'
    if op == 'R':
        return ((cur == '+v') if hasv else cur != 'unset'), cur
    if op == 'D':
        return ((cur != '+v') if hasv else cur == 'unset'), cur
    if op == 'U':
        ok = cur in ('unset', '+v', '-w')
        return ok, ('+v' if ok else cur)


def cases():
    for op in 'PNRDCU':
        for hasv in ((True,) if op in 'PNU' else (False,) if op == 'C' else (True, False)):
            for cur in CUR:
                if not hasv and cur in ('+w', '-w'):
                    continue      # without a value v and w are indistinguishable
                yield op, hasv, cur


def clean(s):
    return not any(contains(k, ('OPQ',)) or has_opaque(k) for k in s.facts)


def has_opaque(t):
    if isinstance(t, tuple):
        if t and t[0] in ('r', 'm', 'mut', 'w', 'join', 'undef', 'top', 'deep', 'p'):
            return True
        return any(has_opaque(x) for x in t if isinstance(x, tuple))
    return False


class H(Hooks):
    def inline(self, A, fn):
        return fn.size < 200 and len(A.stack) < 6


def fdstate(c, P):
    fns = [f for f in P.fns.values() if f.name == 'apply_operation' and f.cls and f.cls.startswith('hfst::FdState')
           and 'FdOperation' in f.params[0]['t']]
    if not fns:
        raise hf.AnalysisBroken('FdState::apply_operation(const FdOperation&) not instantiated')
    en = P.enums.get('hfst::FdOperator')
    if not en:
        raise hf.AnalysisBroken('enum hfst::FdOperator not found')
    for f in fns:
        for op, hasv, cur in cases():
            s = St()
            pl = ('v', f.params[0]['id'])
            s.mem[('f', pl, 'op')] = K(en['hfst::%sop' % op])
            v = V if hasv else K(0)
            s.mem[('f', pl, 'value')] = v
            s.mem[('f', pl, 'feature')] = F
            s.facts[V] = (1, float('inf'), frozenset(), None)
            C = {'unset': K(0), '+v': V, '-v': mkneg(V), '+w': W, '-w': W}[cur]
            if cur == '+w':
                s.facts[W] = (1, float('inf'), frozenset(), None)
                s.facts[mkeq(W, V)] = (0, 0, frozenset(), None)
            if cur == '-w':
                s.facts[W] = (-float('inf'), -1, frozenset(), None)
                s.facts[mkeq(mkneg(W), V)] = (0, 0, frozenset(), None)
                s.facts[mkeq(W, mkneg(V))] = (0, 0, frozenset(), None)
            vl = ('f', ('T',), 'values')
            B = ('sym', 'VALS')
            a = A(P, H())
            s = a.rawstore(s, vl, ('st', B, F, C))
            r = a.run(f, s)
            judge(a, c, f, 'FdState', op, hasv, cur, [(x, rv, newset(a, x, vl, B, v, hasv)) for x, rv in r['ret']],
                  len(r['throw']))


def newset(a, x, vl, B, v, hasv):
    ct = a.content(x, vl)
    if ct == B:
        return '?'
    if ct[0] != 'st' or ct[1] != B:
        return 'other-feature-changed' if contains(ct, B) else '?'
    if ct[2] != F:
        return '?'
    n = a.simp(x, ct[3])
    if n == K(0):
        return 'unset'
    if n == V:
        return '+v'
    if n == mkneg(V):
        return '-v'
    if n == W:
        g = a.constraint(x, W)
        return '+w' if g[0] > 0 else '-w'
    return 'odd:%r' % (n,)


def judge(a, c, f, eng, op, hasv, cur, outs, nthrow):
    ok, new = spec(op, hasv, cur)
    site = '%s: @%s.F%s@ when feature is %s' % (eng, op, '.v' if hasv else '', cur)
    dec = []
    for x, rv, n in outs:
        if not isk(rv):
            d = a.decide(x, rv)
            rv = rv if d is None else K(int(d))
        if not isk(rv) or n == '?':
            dec.append(None)
        else:
            dec.append((bool(rv[1]), n, x))
    good = [d for d in dec if d and d[0] == ok and d[1] == new]
    bad = [d for d in dec if d and not (d[0] == ok and d[1] == new) and clean(d[2])]
    if bad:
        d = bad[0]
        c.obligation('flag-transfer', site, False, 'specified: %s, setting becomes %s; code: %s, setting becomes %s' % (
            'allowed' if ok else 'blocked', new, 'allowed' if d[0] else 'blocked', d[1]), f.file, f.l, path=d[2].where())
    elif good and all(dec) and len(good) == len(dec):
        c.obligation('flag-transfer', site, True)
    elif not dec and nthrow:
        c.obligation('flag-transfer', site, False, 'the operation never returns (throws)', f.file, f.l)
    else:
        c.undecide('flag-transfer', site)


class H2(H):
    def call(self, A, s, node, fn, recv, args):
        if fn in ('FlagDiacriticTable::is_diacritic', 'FlagDiacriticTable::is_genuine_diacritic'):
            return [(s, K(1))]
        if fn == 'FlagDiacriticTable::split_diacritic':
            return [(s, TOP)]
        return None


def table(c, P):
    f = P.one('FlagDiacriticTable::insert_symbol')
    en = P.enums.get('DiacriticOperator')
    if not en:
        raise hf.AnalysisBroken('enum DiacriticOperator not found')
    g = lambda n: ('v', 'g:FlagDiacriticTable::' + n)
    for op, hasv, cur in cases():
        a = A(P, H2())
        s = St()
        pl = ('v', f.params[0]['id'])
        s.mem[pl] = SYM
        s.mem[g('diacritic_operators')] = ('st', ('sym', 'DO'), SYM, K(en['%sop' % op]))
        s.mem[g('diacritic_features')] = ('st', ('sym', 'DF'), SYM, F)
        s.mem[g('diacritic_values')] = ('st', ('sym', 'DV'), SYM, V)
        s.mem[g('diacritic_has_value')] = ('st', ('sym', 'DH'), SYM, K(int(hasv)))
        fv, fp = ('f', ('T',), 'feature_values'), ('f', ('T',), 'feature_polarities')
        if cur == 'unset':
            s.mem[fv] = ('ers', ('sym', 'FV'), F)
            s.mem[fp] = ('ers', ('sym', 'FP'), F)
        else:
            s.mem[fv] = ('st', ('sym', 'FV'), F, V if cur[1] == 'v' else W)
            s.mem[fp] = ('st', ('sym', 'FP'), F, K(int(cur[0] == '+')))
            s.facts[mkeq(V, W)] = (0, 0, frozenset(), None)
        s.mem[('f', ('T',), 'error_flag')] = K(0)
        r = a.run(f, s)
        outs = []
        new_ = spec(op, hasv, cur)[1]
        for x, rv in r['ret']:
            err = a.load(x, ('f', ('T',), 'error_flag'))
            if not isk(err):
                d = a.decide(x, err)
                err = K(int(d)) if d is not None else err
            cv, cp = a.content(x, fv), a.content(x, fp)
            hv = a.has(x, cv, F)
            if hv == K(0):
                n = 'unset'
            elif hv == K(1):
                ev, ep = a.elt(cv, F), a.elt(cp, F)
                ep = a.simp(x, ep)
                if ev in (V, W) and isk(ep):
                    n = ('+' if ep[1] else '-') + ('v' if ev == V else 'w')
                elif new_ == 'unset':
                    n = 'still set'
                else:
                    n = '?'
            else:
                n = '?'
            rv2 = K(int(not err[1])) if isk(err) else TOP
            outs.append((x, rv2, n))
        # after a blocked operation the engine's setting is never consulted again
        ok, new = spec(op, hasv, cur)
        if not ok:
            outs = [(x, rv, new if isk(rv) and not rv[1] else n) for x, rv, n in outs]
        judge(a, c, f, 'FlagDiacriticTable', op, hasv, cur, outs, len(r['throw']))


class H3(H):
    def __init__(self, chars, size, dots2):
        self.chars, self.sz, self.d2 = chars, size, dots2

    def load(self, A, s, loc, node):
        if loc[0] == 'i' and A.base_content(s, loc[1]) == SYM:
            i = loc[2]
            if isk(i) and i[1] in (0, 1, 2):
                return self.chars[i[1]]
            if i == add(('sz', SYM), -1) or i == ('last',):
                return self.chars['last']
            if i == add(('sz', SYM), -2):
                return ('sym', 'lastbut')
        return None

    def call(self, A, s, node, fn, recv, args):
        if recv is not None and A.base_content(s, recv) == SYM:
            m = short(fn)
            v = args[0]
            if m in ('find_last_of', 'rfind', 'find', 'find_first_of') and v and v[0] in (K(46), K('.')):
                pos = v[1] if len(v) > 1 else None
                if m in ('find_last_of', 'rfind'):
                    return [(s, K(2) if not self.d2 else ('sym', 'dot2'))]
                if pos is None or pos == K(0) or pos == K(2) or pos == K(1):
                    return [(s, K(2))]
                if pos == K(3):
                    return [(s, K(NP) if not self.d2 else ('sym', 'dot2'))]
        return None


def grammar(c, P, q):
    f = P.one(q)

    def one(name, opc, at0, at2, last, lo, hi, d2, want):
        ch = {0: at0, 1: opc, 2: at2, 'last': last}
        a = A(P, H3(ch, None, d2))
        s = St()
        s.mem[('v', f.params[0]['id'])] = SYM
        s.facts[('sz', SYM)] = (lo, hi, frozenset(), None)
        s.facts[('sym', 'dot2')] = (3, 1 << 40, frozenset(), None)
        for n, t in (('c0', 64), ('c2', 46), ('cl', 64)):
            s.facts[('sym', n)] = (-128, 127, frozenset([t]), None)
        s.facts[('sym', 'c1')] = (-128, 127, frozenset(map(ord, 'PNRDCU')), None)
        r = a.run(f, s)
        site = '%s(%s)' % (short(q), name)
        outs = []
        for x, rv in r['ret']:
            d = a.decide(x, rv)
            outs.append((d, x))
        bad = [x for d, x in outs if d is not None and d != want and clean(x)]
        if bad:
            c.obligation('flag-recognition', '%s: %s' % (q, name), False, 'must be %s as a flag diacritic but is %s' % (
                ('recognised', 'rejected') if want else ('rejected', 'recognised')), f.file, f.l, path=bad[0].where())
        elif outs and all(d == want for d, x in outs):
            c.obligation('flag-recognition', '%s: %s' % (q, name), True)
        else:
            c.undecide('flag-recognition', site)
    AT, DOT = K(64), K(46)
    big = (5, float('inf'))
    for op in 'PNRDCU':
        one('well-formed @%s.F.V@' % op, K(ord(op)), AT, DOT, AT, 6, float('inf'), True, True)
        one('well-formed @%s.F@' % op, K(ord(op)), AT, DOT, AT, 5, float('inf'), False, op in 'RDC')
        one('@%s too short' % op, K(ord(op)), AT, DOT, AT, 3, 4, False, False)
        one('@%s without leading @' % op, K(ord(op)), ('sym', 'c0'), DOT, AT, 6, float('inf'), True, False)
        one('@%s without final @' % op, K(ord(op)), AT, DOT, ('sym', 'cl'), 6, float('inf'), True, False)
        one('@%s without dot' % op, K(ord(op)), AT, ('sym', 'c2'), AT, 6, float('inf'), True, False)
    one('unknown operator letter', ('sym', 'c1'), AT, DOT, AT, 6, float('inf'), True, False)
    one('unknown operator letter, no value', ('sym', 'c1'), AT, DOT, AT, 6, float('inf'), False, False)


def letters(c, P):
    f = P.one('hfst::FdOperation::char_to_operator')
    en = P.enums['hfst::FdOperator']
    for op in 'PNRDCU':
        a = A(P, H())
        s = St()
        s.mem[('v', f.params[0]['id'])] = K(ord(op))
        r = a.run(f, s)
        want = K(en['hfst::%sop' % op])
        outs = {rv for _, rv in r['ret']}
        if outs == {want}:
            c.obligation('flag-letter', 'char_to_operator(%s)' % op, True)
        elif outs and all(isk(o) for o in outs) or not outs:
            c.obligation('flag-letter', 'char_to_operator(%s)' % op, False, 'maps to another operator (%r, expected %r)' % (outs, want), f.file, f.l)
        else:
            c.undecide('flag-letter', op)
    # the other copy: FlagDiacriticTable::split_diacritic, and feature/value split in both
    f = P.one('FlagDiacriticTable::split_diacritic')
    en = P.enums['DiacriticOperator']
    g = lambda n: ('v', 'g:FlagDiacriticTable::' + n)
    for op in 'PNRDCU':
        for d2 in ((True,) if op in 'PNU' else (True, False)):
            a = A(P, H3({0: K(64), 1: K(ord(op)), 2: K(46), 'last': K(64)}, None, d2))
            s = St()
            s.mem[('v', f.params[0]['id'])] = SYM
            s.facts[('sz', SYM)] = (5, float('inf'), frozenset(), None)
            s.facts[('sym', 'dot2')] = (3, 1 << 40, frozenset(), None)
            for n in ('diacritic_operators', 'diacritic_features', 'diacritic_values', 'diacritic_has_value'):
                s.mem[g(n)] = ('sym', n)
            r = a.run(f, s)
            for x, _ in r['ret']:
                o = a.simp(x, a.elt(a.content(x, g('diacritic_operators')), SYM))
                site = 'split_diacritic(@%s.F%s@)' % (op, '.V' if d2 else '')
                if isk(o):
                    c.obligation('flag-letter', site, o == K(en['%sop' % op]), 'maps to operator %r' % (o,), f.file, f.l)
                else:
                    c.undecide('flag-letter', site)
                h = a.simp(x, a.elt(a.content(x, g('diacritic_has_value')), SYM))
                if isk(h):
                    c.obligation('flag-has-value', site, bool(h[1]) == d2, 'value presence recorded as %r' % (h,), f.file, f.l)
                else:
                    c.undecide('flag-has-value', site)
                split(c, f, site, a.elt(a.content(x, g('diacritic_features')), SYM),
                      a.elt(a.content(x, g('diacritic_values')), SYM) if d2 else None, d2)
    # FdTable::define_diacritic
    fns = [f for f in P.fns.values() if f.name == 'define_diacritic' and f.cls and f.cls.startswith('hfst::FdTable')]
    if not fns:
        raise hf.AnalysisBroken('FdTable::define_diacritic not instantiated')
    for f in fns[:1]:
        for op in 'PNRDCU':
            for d2 in ((True,) if op in 'PNU' else (True, False)):
                h = HD({0: K(64), 1: K(ord(op)), 2: K(46), 'last': K(64)}, None, d2)
                a = A(P, h)
                s = St()
                s.mem[('v', f.params[1]['id'])] = SYM
                s.facts[('sz', SYM)] = (5, float('inf'), frozenset(), None)
                s.facts[('sym', 'dot2')] = (3, 1 << 40, frozenset(), None)
                r = a.run(f, s)
                site = 'define_diacritic(@%s.F%s@)' % (op, '.V' if d2 else '')
                for x, _ in r['ret']:
                    ol = a.elt(a.content(x, ('f', ('T',), 'operations')), ('in', ('v', f.params[0]['id'])))
                    o, ft, vl = a.fldof(ol, 'op'), a.fldof(ol, 'feature'), a.fldof(ol, 'value')
                    if isk(o):
                        c.obligation('flag-letter', site, o == K(P.enums['hfst::FdOperator']['hfst::%sop' % op]),
                                     'stored with operator %r' % (o,), f.file, f.l)
                    else:
                        c.undecide('flag-letter', site)
                for ft in h.feats:
                    split(c, f, site, ft, None, d2)
                for v in h.vals:
                    split(c, f, site, None, v, d2)
        break


class HD(H3):
    def __init__(self, *a):
        super().__init__(*a)
        self.feats, self.vals = set(), set()

    def call(self, A, s, node, fn, recv, args):
        if short(fn) == 'is_diacritic':
            return [(s, K(1))]
        if short(fn).startswith('size_t_to_') and args[0]:
            return [(s, args[0][0])]
        if node.get('op') == '[]' and recv == ('f', ('T',), 'feature_map'):
            self.feats.add(args[0][0])
        if node.get('op') == '[]' and recv == ('f', ('T',), 'value_map'):
            self.vals.add(args[0][0])
        return super().call(A, s, node, fn, recv, args)


def split(c, f, site, feat, val, d2):
    """feature / value substrings: [3, dot2) and (dot2, last)"""
    D = ('sym', 'dot2'); S = ('sz', SYM)

    def sub(t):
        if isinstance(t, tuple) and t[0] == 'm' and short(t[1]) == 'substr' and t[2] == SYM and len(t) >= 5:
            return t[3], t[4]
        return None

    def known(t):
        if isk(t):
            return True
        if t[0] == '+':
            return known(t[1])
        return t in (D, S) or (t[0] == 'op' and known(t[2]) and known(t[3]))
    want_len = add(D, -3) if d2 else add(S, -4)
    if feat is not None:
        p = sub(feat)
        if p and known(p[0]) and known(p[1]):
            c.obligation('flag-feature-name', site, p == (K(3), want_len), 'feature name is taken from %r, length %r' % p, f.file, f.l)
        elif feat[0] != 'sym':
            c.undecide('flag-feature-name', site)
    if val is not None and d2:
        p = sub(val)
        w = add(('op', '-', S, D), -2)
        if p and known(p[0]) and known(p[1]):
            c.obligation('flag-value', site, p == (add(D, 1), w), 'value is taken from %r, length %r' % p, f.file, f.l)
        else:
            c.undecide('flag-value', site)
    elif val is not None:
        if isk(val):
            c.obligation('flag-value', site, val == K(''), 'a flag without value gets value %r' % (val,), f.file, f.l)
        else:
            p = sub(val)
            if p:
                c.obligation('flag-value', site, False, 'a flag without value gets a value', f.file, f.l)


class HB(H):
    def call(self, A, s, node, fn, recv, args):
        if short(fn) in ('strdup', 'c_str'):
            return [(s, args[0][0] if args[0] else A.content(s, recv))]
        return None


def elimination(c, P):
    """flag_build(f, ff): does an earlier flag ff make the later flag f fail / succeed?  Must agree with the
    run-time semantics: after ff the feature has a known setting, f is then allowed or blocked."""
    f = P.one('hfst::flag_build')
    h = P.one('hfst::hfst_operator_to_char')
    code = {}
    for op in 'PNRDCU':
        class HO(H):
            def load(self, A, s, loc, node):
                if loc[0] == 'i' and A.base_content(s, loc[1]) == SYM and loc[2] in (K(0),):
                    return K(ord(op))
                return None
        a = A(P, HO())
        s = St()
        s.mem[('v', h.params[0]['id'])] = SYM
        r = a.run(h, s)
        outs = {rv for _, rv in r['ret']}
        if len(outs) != 1 or not isk(list(outs)[0]):
            c.undecide('flag-elimination', 'operator code of ' + op)
            return
        code[op] = list(outs)[0]
    c.obligation('flag-elimination-letters', 'hfst_operator_to_char', len(set(code.values())) == 6,
                 'two operators share one code: %r' % code, h.file, h.l)
    p = [('v', x['id']) for x in f.params]
    if len(p) != 6:
        c.undecide('flag-elimination', 'flag_build signature changed')
        return
    FAIL, SUCC, NONE = K(1), K(2), K(3)   # meaning fixed by get_flag_filter below
    for op in 'URD':
        for nov in ((False,) if op == 'U' else (False, True)):
            for ff in 'PNCURD':
                for same in ((True, False) if not nov and ff not in 'C' else (False,)):
                    s = St()
                    s.mem[p[0]] = code[op]
                    s.mem[p[1]] = F
                    s.mem[p[2]] = K('') if nov else V
                    s.mem[p[3]] = code[ff]
                    s.mem[p[4]] = F
                    s.mem[p[5]] = K('') if ff == 'C' else (V if same else W)
                    for x in (V, W):
                        s.facts[x] = (-float('inf'), float('inf'), frozenset(['']), None)
                    s.facts[mkeq(V, W)] = (0, 0, frozenset(), None)
                    a = A(P, H())
                    outs = {rv for _, rv in a.run(f, s)['ret']}
                    site = '@%s.F%s@ after @%s.F%s@' % (op, '' if nov else '.v', ff, '' if ff == 'C' else '.v' if same else '.w')
                    if ff in 'RD':
                        ok = {NONE}
                    else:
                        cur = {'P': '+', 'U': '+', 'N': '-', 'C': 'unset'}[ff]
                        if cur != 'unset':
                            cur += 'v' if same else 'w'
                        allowed, _ = spec(op, not nov, cur)
                        ok = {SUCC} if allowed else {FAIL}
                        if (op, ff, same) in (('U', 'U', True), ('D', 'U', False)) and not nov:
                            ok = {SUCC, NONE}     # no earlier failing flag can still be in force
                    if len(outs) == 1 and isk(list(outs)[0]):
                        c.obligation('flag-elimination', site, list(outs)[0] in ok, 'elimination treats the pair as %s, run-time semantics requires %s' % (
                            {1: 'failing', 2: 'succeeding', 3: 'unrelated'}.get(list(outs)[0][1]), {1: 'failing', 2: 'succeeding', 3: 'unrelated'}[sorted(ok)[0][1]]),
                            f.file, f.l)
                    else:
                        c.undecide('flag-elimination', site)


class HW(H):
    """engine wrapper: get_operation -> given pointer, apply_operation(FdOperation) -> symbolic result"""
    def __init__(self, f, ptr):
        self.f, self.ptr = f, ptr

    def call(self, A, s, node, fn, recv, args):
        if short(fn) == 'get_operation':
            return [(s, self.ptr)]
        if short(fn) == 'apply_operation':
            return [(s, ('sym', 'RESULT'))]
        return None


def engine_frame(c, P):
    """what surrounds the transfer function: wrappers return its verdict, resets return to the neutral state,
    feature and value identifiers are injective and the neutral value is 0"""
    n = 0
    for f in P.fns.values():
        if f.name == 'apply_operation' and f.cls and f.cls.startswith('hfst::FdState') and 'FdOperation' not in f.params[0]['t']:
            for ptr, want, nm in ((K(0), K(1), 'not a flag'), (('addr', ('v', 'OPX')), ('sym', 'RESULT'), 'flag')):
                a = A(P, HW(f, ptr))
                s = St()
                s.facts[ptr] = (1, 1 << 60, frozenset(), None) if ptr != K(0) else None
                if ptr == K(0):
                    s.facts.pop(ptr)
                vl = ('f', ('T',), 'values')
                s.mem[vl] = ('sym', 'VALS')
                r = a.run(f, s)
                site = '%s(%s): %s' % (f.q, f.params[0]['t'], nm)
                outs = [(x, a.simp(x, v)) for x, v in r['ret']]
                n += 1
                bad = [(x, v) for x, v in outs if v != want and (isk(v) or v[0] in ('sym', 'not')) and clean(x)]
                chg = [x for x, v in outs if nm != 'flag' and a.content(x, vl) != ('sym', 'VALS')]
                if bad or chg:
                    c.obligation('flag-verdict-returned', site, False, 'the verdict of the flag operation is not what is returned', f.file, f.l)
                elif outs and all(v == want for x, v in outs):
                    c.obligation('flag-verdict-returned', site, True)
                else:
                    c.undecide('flag-verdict-returned', site)
    c.floor('engine wrappers', n, 2)
    f = (P.fn('FlagDiacriticTable::reset', 0) or [None])[0]
    if f:
        a = A(P, H())
        s = St()
        T = ('T',)
        for m in ('feature_values', 'feature_polarities'):
            s.mem[('f', T, m)] = ('sym', m)
        for x, _ in a.run(f, s)['ret']:
            e = a.load(x, ('f', T, 'error_flag'))
            site = 'FlagDiacriticTable::reset'
            if isk(e) or e[0] == 'in':
                c.obligation('flag-reset', site + ': error flag', e == K(0), 'error flag is %r after reset' % (e,), f.file, f.l)
            for m in ('feature_values', 'feature_polarities'):
                ct = a.content(x, ('f', T, m))
                if ct == ('sym', m):
                    c.obligation('flag-reset', site + ': ' + m, False, 'settings survive a reset', f.file, f.l)
                elif a.size(x, ct) == K(0):
                    c.obligation('flag-reset', site + ': ' + m, True)
                else:
                    c.undecide('flag-reset', site + m)
    # identifiers
    k = 0
    for f in P.fns.values():
        if f.name == 'define_diacritic' and f.cls and f.cls.startswith('hfst::FdTable'):
            k += 1
            if k > 1:
                break
            h = HD({0: K(64), 1: K(ord('P')), 2: K(46), 'last': K(64)}, None, True)
            a = A(P, h)
            s = St()
            s.mem[('v', f.params[1]['id'])] = SYM
            s.facts[('sz', SYM)] = (5, float('inf'), frozenset(), None)
            s.facts[('sym', 'dot2')] = (3, 1 << 40, frozenset(), None)
            for m in ('feature_map', 'value_map'):
                s.mem[('f', ('T',), m)] = ('sym', m)
            for x, _ in a.run(f, s)['ret']:
                for m in ('feature_map', 'value_map'):
                    ct = a.content(x, ('f', ('T',), m))
                    while ct[0] in ('st', 'ins'):
                        if ct[0] == 'st':
                            v = a.simp(x, ct[3])
                            while v[0] in ('m', 'cast') and short(str(v[1])) == 'size_t_to_ushort':
                                v = v[-1]
                            b = ('sz', ('sym', m))
                            site = '%s: new identifier in %s' % (f.q, m)
                            if isk(v):
                                c.obligation('flag-ids', site, False, 'every new name gets the same identifier %r' % (v,), f.file, f.l)
                            elif v == b or (v[0] == '+' and v[1] == b):
                                off = 0 if v == b else v[2]
                                c.obligation('flag-ids', site, off == 0 if m == 'feature_map' else off >= 0,
                                             'identifier is size%+d' % off, f.file, f.l)
                            elif not contains(v, ('sym', m)) and not has_opaque(v):
                                c.obligation('flag-ids', site, False, 'identifier %r does not depend on the names already numbered' % (v,), f.file, f.l)
                            else:
                                c.undecide('flag-ids', site, repr(v))
                        ct = ct[1]


def accessors(c, P):
    for q, kind in (('get_feature', 'f'), ('get_value', 'v'), ('has_value', 'h'), ('get_operator', 'o')):
        f = P.one('hfst::FdOperation::' + q)
        for d2 in (True, False):
            a = A(P, H3({0: K(64), 1: ('sym', 'opch'), 2: K(46), 'last': K(64)}, None, d2))
            s = St()
            s.mem[('v', f.params[0]['id'])] = SYM
            s.facts[('sz', SYM)] = (5, float('inf'), frozenset(), None)
            s.facts[('sym', 'dot2')] = (3, 1 << 40, frozenset(), None)
            site = '%s(@X.F%s@)' % (q, '.V' if d2 else '')
            for x, v in a.run(f, s)['ret']:
                v = a.simp(x, v)
                if kind == 'h':
                    d = a.decide(x, v)
                    if d is None:
                        c.undecide('flag-accessor', site)
                    else:
                        c.obligation('flag-accessor', site, bool(d) == d2, 'answers %r' % bool(d), f.file, f.l)
                elif kind == 'f':
                    split(c, f, site, v, None, d2)
                elif kind == 'v':
                    split(c, f, site, None, v, d2)
                elif v[0] == 'm' and short(v[1]) == 'substr' and v[2] == SYM and all(map(isk, v[3:5])):
                    c.obligation('flag-accessor', site, v[3:5] == (K(1), K(1)), 'operator taken from %r' % (v[3:5],), f.file, f.l)


class HF(Hooks):
    """flag filter construction: which flags go to the fail / succeed sets, for each kind of flag"""
    def __init__(self, op, status):
        self.op, self.status = op, status
        self.reached, self.sink, self.filt = 0, [], []

    def inline(self, A, fn):
        return fn.file.endswith('HfstTransducer.cc') and fn.cls is None and fn.size < 400 and short(fn.q) not in ('flag_build', 'new_filter') and len(A.stack) < 4

    def load(self, A, s, loc, node):
        if loc[0] == 'i' and loc[2] == K(0):
            b = A.base_content(s, loc[1])
            if b == K(self.op):
                return K(ord(self.op))
        return None

    def call(self, A, s, node, fn, recv, args):
        m = short(fn)
        if m == 'get_operator' and 'FdOperation' in fn:
            return [(s, K(self.op))]
        if m == 'flag_build':
            self.reached += 1
            return [(s, K(self.status))]
        if m == 'disjunct' and recv is not None and self.reached:
            self.sink.append(recv)
        if m == 'new_filter':
            self.filt.append((args[1], [A.simp(s, v) for v in args[0]]))
        return None


def filters(c, P):
    f = (P.fn('hfst::get_flag_filter') or [None])[0]
    if not f:
        c.undecide('flag-filter', 'get_flag_filter not found')
        return
    sinks = {}
    for op in 'URD':
        for st in (1, 2):
            h = HF(op, st)
            a = A(P, h)
            s = St()
            a.run(f, s)
            site = 'flag filter for @%s...@, pair status %d' % (op, st)
            if not h.reached:
                c.obligation('flag-filter', site, False, 'no pair of flags is ever considered for operator %s' % op, f.file, f.l)
                continue
            c.obligation('flag-filter', site, True)
            if len(set(h.sink)) == 1 and h.filt:
                got = h.sink[0]
                for locs, vals in h.filt:
                    idx = [i for i, l in enumerate(locs) if l == got]
                    if len(locs) >= 4 and idx:
                        c.obligation('flag-filter-sets', site, idx[0] == st - 1, 'flags that make @%s...@ %s are put in the other set' % (
                            op, 'fail' if st == 1 else 'succeed'), f.file, f.l)
                        r = vals[3]
                        if isk(r):
                            c.obligation('flag-filter-required', site, bool(r[1]) == (op == 'R'), 'required=%r for operator %s' % (r[1], op), f.file, f.l)
            elif not h.sink:
                c.obligation('flag-filter-sets', site, False, 'the pair leaves no trace in the filter', f.file, f.l)
            else:
                c.undecide('flag-filter-sets', site, repr(h.sink))
    # argument order into the pair table
    f = (P.fn('hfst::is_valid_flag_combination') or [None])[0]
    if f and len(f.params) == 2:
        rec = []

        class HA(HB):
            def inline(self, A, fn):
                return False

            def call(self, A, s, node, fn, recv, args):
                m = short(fn)
                if m in ('get_operator', 'get_feature', 'get_value'):
                    return [(s, ('acc', m, args[0][0]))]
                if m == 'hfst_operator_to_char':
                    return [(s, args[0][0])]
                if m == 'flag_build':
                    rec.append([A.simp(s, v) for v in args[0]])
                    return [(s, ('sym', 'R'))]
                return super().call(A, s, node, fn, recv, args)
        a = A(P, HA())
        s = St()
        P1, P2 = ('sym', 'flag1'), ('sym', 'flag2')
        s.mem[('v', f.params[0]['id'])] = P1
        s.mem[('v', f.params[1]['id'])] = P2
        a.run(f, s)
        want = [('acc', m, x) for x in (P1, P2) for m in ('get_operator', 'get_feature', 'get_value')]
        for r in rec:
            if all(isinstance(v, tuple) and v[0] == 'acc' for v in r):
                c.obligation('flag-pair-arguments', 'is_valid_flag_combination', r == want, 'pair table called with %r' % (r,), f.file, f.l)
            else:
                c.undecide('flag-pair-arguments', repr(r))


def check(c):
    P = hf.Program([hf.LIB + 'HfstFlagDiacritics.cc', hf.LIB + 'HfstLookupFlagDiacritics.cc', hf.OL + 'transducer.cc', hf.LIB + 'HfstTransducer.cc',
                    hf.IMPL + 'FomaTransducer.cc', hf.IMPL + 'HfstOlTransducer.cc'])
    fdstate(c, P)
    table(c, P)
    grammar(c, P, 'hfst::FdOperation::is_diacritic')
    grammar(c, P, 'FlagDiacriticTable::is_genuine_diacritic')
    letters(c, P)
    engine_frame(c, P)
    elimination(c, P)
    accessors(c, P)
    filters(c, P)
    c.floor('flag obligations', c.obl + c.undecided, 150)


chk.main('C05', check, 'abstract transfer functions of the two flag-diacritic engines and of the flag recognisers, '
         'computed over the finite partition of settings relative to the flag value, compared with the specification')
