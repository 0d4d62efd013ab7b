"""C08: AT&T and prolog text is read by the fields and escapes it is written with."""
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import hf
import chk
import absint
from absint import K, isk, lin

LIB = 'libhfst/src/'
SRC = LIB + 'implementations/HfstBasicTransducer.cc'
B = 'hfst::implementations::HfstBasicTransducer'
T = ('T',)
TOP = ('top',)
CONV = re.compile(r'%(?:%|\[\^?\]?[^\]]*\]|[-+ #0]*(?:\d+|\*)?(?:\.\d+)?(?:hh|h|ll|l|z)?([a-zA-Z]))')
EPS, UNK, IDE = '@_EPSILON_SYMBOL_@', '@_UNKNOWN_SYMBOL_@', '@_IDENTITY_SYMBOL_@'


def short(fn):
    return fn.split('(')[0].split('::')[-1] if fn else ''


def uncst(t):
    while isinstance(t, tuple) and t and t[0] == 'cst':
        t = t[2]
    return t


def summands(t):
    t = uncst(t)
    if t[0] == 'op' and t[1] == '+' and len(t) == 4:
        return tuple(sorted(summands(t[2]) + summands(t[3]), key=str))
    if t[0] == '+':
        return tuple(sorted(summands(t[1]) + (K(t[2]),), key=str))
    return () if t == K(0) else (t,)


def bases(ts):
    return [t for t in ts if t[0] != 'len']


class W(absint.Hooks):
    """writer: the text of each line, with holes for the values written"""

    def __init__(self, P):
        self.P = P
        self.lines = []
        self.gaps = []
        self.steps = []
        self.left = []

    def inline(self, A, fn):
        return len(A.stack) < 6 and fn.size < 250 and ((fn.cls or '') == B or not fn.cls and fn.file.endswith('HfstBasicTransducer.cc'))

    def emit(self, A, s, node, parts):
        self.count += 1
        tok = list(s.tr.get('tok') or ())
        for p in parts:
            if p[0] == 't':
                for i, x in enumerate(p[1].split('\n')):
                    if i:
                        self.lines.append((A.fstack[0] if A.fstack else None, tuple(tok), s, node))
                        hs = [x[1] for x in tok if x[0] == 'h']
                        if ('tgt',) in hs:
                            s = s.with_tr(fl=False)
                        elif hs:
                            s = s.with_tr(fl=True, done=hs[0])
                        tok = []
                        s = s.with_tr(**{'tok': ()})
                    if x:
                        if tok and tok[-1][0] == 't':
                            tok[-1] = ('t', tok[-1][1] + x)
                        else:
                            tok.append(('t', x))
            else:
                tok.append(p)
        return s.with_tr(tok=tuple(tok[-60:]))

    def fmt(self, f, vals):
        out, pos, vi = [], 0, 0
        for m in CONV.finditer(f):
            if m.start() > pos:
                out.append(('t', f[pos:m.start()]))
            pos = m.end()
            if m.group(0) == '%%':
                out.append(('t', '%'))
                continue
            v = vals[vi] if vi < len(vals) else TOP
            vi += 1
            out.append(self.part(v, m.group(1)))
        if pos < len(f):
            out.append(('t', f[pos:]))
        return out

    def part(self, v, conv=None):
        v = uncst(v)
        if isk(v) and isinstance(v[1], str):
            return ('t', v[1])
        return ('h', v, conv)

    def call(self, A, s, node, fn, recv, args):
        vals, locs = args
        sh = short(fn)
        if 'basic_ostream' in fn and sh == 'operator<<' or fn == 'std::operator<<':
            a = (node.get('args') or [])[-1]
            if a.get('k') == 'ref' and a.get('n') == 'endl' or 'endl' in str(a.get('n') or a.get('fn') or ''):
                return [(self.emit(A, s, node, [('t', '\n')]), TOP)]
            v = vals[-1]
            if isk(v) and type(v[1]) is int and re.fullmatch(r'(const )?(unsigned |signed )?char', a.get('t') or ''):
                v = K(chr(v[1] & 255))
            return [(self.emit(A, s, node, [self.part(v)]), TOP)]
        if sh in ('fprintf', 'sprintf') and len(vals) >= 2 and isk(vals[1]):
            if sh == 'sprintf':
                nx = s.tr.get('nx')
                at = summands(vals[0])
                if nx is not None and nx != at and bases(nx) == bases(at) and bases(at) != list(at):
                    self.gaps.append((A.fstack[0], nx, at, node, s))
                r = ('len', node.get('nid'))
                s = s.with_tr(nx=tuple(sorted(at + (r,), key=str)))
                return [(self.emit(A, s, node, self.fmt(vals[1][1], vals[2:])), r)]
            return [(self.emit(A, s, node, self.fmt(vals[1][1], vals[2:])), TOP)]
        if sh in ('fputs',) and vals:
            return [(self.emit(A, s, node, [self.part(vals[0])]), TOP)]
        if sh in ('fputc', 'putc') and vals:
            v = vals[0]
            if isk(v) and isinstance(v[1], int):
                return [(self.emit(A, s, node, [('t', chr(v[1]))]), TOP)]
        if sh == 'replace_all' and len(vals) == 3 and locs[0] is not None:
            self.count += 1
            return [(A.rawstore(s, locs[0], ('rep', A.content(s, locs[0]), vals[1], vals[2])), TOP)]
        if sh == 'prologize_symbol' and len(vals) == 1:
            return [(s, ('pro', vals[0]))]
        m = {'get_input_symbol': 'isym', 'get_output_symbol': 'osym', 'get_weight': 'w', 'get_target_state': 'tgt', 'get_input_number': 'isym', 'get_output_number': 'osym'}.get(sh)
        if m and not vals:
            return [(s, (m,))]
        if sh in ('operator==', 'operator!=', 'compare') and (len(vals) == 2 or recv is not None and len(vals) == 1):
            a, b = (vals[0], vals[1]) if len(vals) == 2 else (A.content(s, recv), vals[0])
            key = None
            if {a, b} == {('isym',), ('osym',)}:
                key = 'same'
            elif K(UNK) in (a, b) and (('isym',) in (a, b) or ('osym',) in (a, b)):
                key = 'unki' if ('isym',) in (a, b) else 'unko'
            if key:
                self.count += 1
                t, f = (K(True), K(False)) if sh == 'operator==' else (K(False), K(True))
                if sh == 'compare':
                    t, f = K(0), K(1)
                was = s.tr.get(key)
                out = []
                for nw, v in ((True, t), (False, f)):
                    y = s.with_tr(**{key: nw})
                    if was is not None and was != nw:
                        continue
                    g = y.tr
                    if g.get('same') and None not in (g.get('unki'), g.get('unko')) and g['unki'] != g['unko']:
                        continue
                    if g.get('same') is False and g.get('unki') and g.get('unko'):
                        continue
                    out.append((y, v))
                return out
        if sh == 'get_transition_data':
            return [(s.with_tr(same=None, unki=None, unko=None), ('dat',))]
        if sh == 'is_final_state' and len(vals) == 1:
            self.count += 1
            return [(s.with_tr(asked=uncst(vals[0]), fin=True, done=None), K(True)), (s.with_tr(asked=uncst(vals[0]), fin=False, done=None), K(False))]
        if sh == 'get_final_weight' and len(vals) == 1:
            return [(s, ('fw', uncst(vals[0])))]
        return None


    def back(self, A, n, h, backs):
        for b in backs:
            self.steps.append((A.fstack[0], n, h, b, A))


class R(absint.Hooks):
    """reader: what is done with the fields scanned from a line"""
    NOT = ('add_transition', 'set_final_weight', 'add_symbol_to_alphabet', 'get_prolog_arc_symbols', 'extract_weight', 'deprologize_symbol',
           'strip_ending_parenthesis_and_comma', 'strip_quotes_from_both_sides', 'get_positions_of_unescaped_char')

    def __init__(self, P, quotes=None):
        self.P = P
        self.scans = []
        self.quotes = quotes

    def inline(self, A, fn):
        return len(A.stack) < 6 and fn.size < 250 and ((fn.cls or '') == B or not fn.cls and fn.file.endswith('HfstBasicTransducer.cc')) and fn.name not in self.NOT

    def fld(self, s, v):
        fl = s.tr.get('flds') or ()
        v = uncst(v)
        return ('F', fl.index(v)) if v in fl else v

    def did(self, s, *x):
        self.count += 1
        d = s.tr.get('did') or ()
        return s.with_tr(did=(d + (x,))[-4:])

    def fork(self, s, **kw):
        self.count += 1
        (k, v), = kw.items()
        return [(s.with_tr(**{k: True}), K(True)), (s.with_tr(**{k: False}), K(False))]

    def call(self, A, s, node, fn, recv, args):
        vals, locs = args
        sh = short(fn)
        if sh == 'sscanf' and len(vals) >= 2 and isk(vals[1]):
            f = vals[1][1]
            convs = [m.group(0) for m in CONV.finditer(f) if m.group(0) != '%%' and not m.group(0).startswith('%*')]
            self.scans.append((A.fstack[0], f, convs, node))
            self.count += 1
            return [(s.with_tr(flds=tuple(vals[2:]), n=n, nc=len(convs)), K(n)) for n in range(-1, len(convs) + 1) if n or not convs]
        if sh in ('atoi', 'atol', 'strtol', 'strtoul') and vals:
            return [(s, ('int', self.fld(s, vals[0])))]
        if sh in ('atof', 'strtod', 'strtof') and vals:
            return [(s, ('flt', self.fld(s, vals[0])))]
        if sh in ('stof', 'stod', 'stoi', 'stoul') and vals:
            return [(s, ('flt' if sh in ('stof', 'stod') else 'int', self.fld(s, vals[0])))]
        if sh == 'basic_string' and vals and self.fld(s, vals[0])[0] == 'F':
            return [(s, self.fld(s, vals[0]))]
        if sh == 'double_to_float' and vals:
            return [(s, vals[0])]
        if sh == 'HfstBasicTransition' and len(vals) == 4:
            return [(s, ('trn',) + tuple(uncst(v) for v in vals))]
        if sh == 'add_transition' and vals:
            return [(self.did(s, 'arc', uncst(vals[0]), vals[1]), TOP)]
        if sh == 'set_final_weight' and len(vals) >= 2:
            return [(self.did(s, 'fin', uncst(vals[0]), uncst(vals[1])), TOP)]
        if sh == 'add_symbol_to_alphabet' and vals:
            return [(self.did(s, 'sym', vals[0]), TOP)]
        if sh == 'deprologize_symbol' and vals:
            return [(s, ('dep', vals[0]))]
        if sh == 'replace_all' and len(vals) == 3 and locs[0] is not None:
            self.count += 1
            return [(A.rawstore(s, locs[0], ('rep', A.content(s, locs[0]), vals[1], vals[2])), TOP)]
        if sh == 'get_prolog_arc_symbols' and len(vals) == 3 and locs[1] is not None and locs[2] is not None:
            x = A.rawstore(A.rawstore(s, locs[1], ('sym', 'I', vals[0])), locs[2], ('sym', 'O', vals[0]))
            return self.fork(x, ok=None)
        if sh == 'extract_weight' and len(vals) == 2 and locs[1] is not None:
            x = A.rawstore(s, locs[1], ('xw', vals[0]))
            if locs[0] is not None:
                x = A.rawstore(x, locs[0], ('cut', vals[0]))
            return self.fork(x, ok2=None)
        if sh in ('strip_ending_parenthesis_and_comma', 'strip_quotes_from_both_sides') and len(vals) == 1 and locs[0] is not None:
            x = A.rawstore(s, locs[0], ('strip', sh[6], vals[0]))
            return self.fork(x, **{sh: None})
        if sh in ('operator==', 'operator!=', 'compare') and (len(vals) == 2 or recv is not None and len(vals) == 1):
            a, b = (vals[0], vals[1]) if len(vals) == 2 else (A.content(s, recv), vals[0])
            t, f = (K(True), K(False)) if sh == 'operator==' else (K(False), K(True))
            if sh == 'compare':
                t, f = K(0), K(1)
            self.count += 1
            eqs = s.tr.get('eqs') or ()
            return [(s.with_tr(eqs=eqs + ((a, b, True),)), t), (s.with_tr(eqs=eqs + ((a, b, False),)), f)]
        if sh == 'operator>>' and len(vals) == 1 and locs[0] is not None and recv is not None:
            return [(A.rawstore(s, locs[0], ('flt', self.stream(A, s, recv))), TOP)]
        if sh == 'fail' and not vals:
            return self.fork(s, fail=None)
        if sh == 'resize' and vals and recv is not None:
            self.count += 1
            return [(s.with_tr(cut=vals[0]), TOP)]
        if sh == 'get_positions_of_unescaped_char' and self.quotes:
            return [(s, ('qp',))]
        return None

    def stream(self, A, s, recv):
        v = A.content(s, recv)
        return v[2] if v[0] == 'ctor' and len(v) > 2 else v



def chain(t):
    """the replacements made in t, in order, and what they are made in"""
    out = []
    while t[0] == 'rep':
        if not (isk(t[2]) and isk(t[3])):
            return None, t
        out.insert(0, (t[2][1], t[3][1]))
        t = t[1]
    return out, t


def apply(reps, x):
    for a, b in reps:
        x = x.replace(a, b)
    return x


def states(r, kind):
    for x in r[kind]:
        yield x if isinstance(x, tuple) else (x, None)


def runs(c, P, rule, q, hooks, st=None):
    """(function, hooks, analysis, result) for every definition of q"""
    n = 0
    for f in P.fns.values():
        if f.q != q or not f.body:
            continue
        h = hooks(f)
        A = absint.A(P, h)
        try:
            r = A.run(f, st or absint.St())
        except RuntimeError:
            c.undecide(rule, '%s:%s' % (f.q, f.params[0]['t'] if f.params else ''))
            continue
        n += 1
        yield f, h, A, r
    if not n:
        c.undecide(rule, q)


def sig(f):
    return '%s(%s)' % (f.q.split('::')[-1], f.params[0]['t'].replace('std::', '').replace('_IO_', '') if f.params else '')


def weights(A, f, s):
    ps = [p for p in f.params if p['t'] == 'bool']
    if len(ps) != 1:
        return None
    lo, hi, ne, eq = A.constraint(s, ('in', ('v', ps[0]['id'])))
    if eq is not None:
        return bool(eq)
    if lo == hi:
        return bool(lo)
    if 0 in ne or False in ne:
        return True
    return None


NAMES = {('tgt',): 'T', ('w',): 'W', ('isym',): 'I', ('osym',): 'O', ('pro', ('isym',)): 'I', ('pro', ('osym',)): 'O'}


def picture(tok, name):
    """the line as text, one letter for each value; the values of the letters S (state), F (final weight) and X (symbol)"""
    out, got = [], {}
    for x in tok:
        if x[0] == 't':
            out.append(x[1])
            continue
        v = uncst(x[1])
        rs, base = chain(v)
        k = NAMES.get(base if rs else v)
        if k is None and v[0] == 'fw':
            k = 'F'
            got['F'] = v[1]
        if k is None and v[0] == 'pro':
            k = 'X'
            got['X'] = v[1]
        if k is None and v == name:
            k = 'N'
        if k is None and (v[0] in ('w', 'k', 'in', '+', 'r') or v[0] == 'elt'):
            k = 'S' if 'S' not in got else 'F'
            got[k] = v
        if k is None:
            k = '?'
        if rs is not None and base in (('isym',), ('osym',)):
            got[k + 'r'] = rs
        got.setdefault('all', []).append((k, v))
        out.append('\0' + k)
    return ''.join(out), got


def counter(t):
    """the variable a state number is counted in"""
    return t[2] if t[0] == 'w' and len(t) > 2 else None


def att_writer(c, P, q, number, tables):
    arc = '\0S\t\0T\t\0I\t\0O'
    for f, h, A, r in runs(c, P, 'layout', q, lambda f: W(P)):
        site = sig(f)
        arcs = finals = 0
        cv = set()
        for fn, tok, s, nd in h.lines:
            pic, got = picture(tok, None)
            ww = weights(A, f, s)
            if '\0?' in pic:
                c.undecide('layout', '%s line %s' % (site, nd.get('l')))
                continue
            if any('\0' + k in pic for k in 'TIOW'):
                arcs += 1
                ok = pic in (arc, arc + '\t\0W')
                c.obligation('layout', site + ' transition', ok, 'a transition is written as %s, not as source, target, input, output, weight between tabs' % show(pic), f.file, nd.get('l'), path=s.where())
                if ok and ww is not None:
                    c.obligation('weight', site + ' transition', pic.endswith('W') == ww, 'a transition is written %s weight when weights are %s' % (('with', 'not asked for') if not ww else ('without', 'asked for')), f.file, nd.get('l'), path=s.where())
                if ok:
                    if counter(got['S']):
                        cv.add(counter(got['S']))
                    for k in 'IO':
                        if k + 'r' in got and not number:
                            tables.setdefault((site, k), set()).add(tuple(got[k + 'r']))
                        elif not number:
                            tables.setdefault((site, k), set()).add(())
            elif pic:
                finals += 1
                ok = pic in ('\0S', '\0S\t\0F')
                c.obligation('layout', site + ' final state', ok, 'a final state is written as %s, not as state and weight with a tab between' % show(pic), f.file, nd.get('l'), path=s.where())
                if ok:
                    if ww is not None:
                        c.obligation('weight', site + ' final state', pic.endswith('F') == ww, 'a final state is written %s weight when weights are %s' % (('with', 'not asked for') if not ww else ('without', 'asked for')), f.file, nd.get('l'), path=s.where())
                    if 'F' in got and s.tr.get('asked') is not None:
                        c.obligation('final', site + ' weight of the state', got['F'] == got['S'], 'the weight written for a final state is that of another state', f.file, nd.get('l'), path=s.where())
                    if s.tr.get('asked') is not None:
                        c.obligation('final', site + ' is final', s.tr['asked'] == got['S'] and s.tr.get('fin') is True, 'a state is written as final that %s' % ('is not' if s.tr.get('fin') is False else 'was not asked about'), f.file, nd.get('l'), path=s.where())
        for fn, nx, at, nd, s in h.gaps:
            c.obligation('gap', site, False, 'the text is not continued where it ended: characters written are not counted once', f.file, nd.get('l'), path=s.where())
        if not h.gaps:
            c.obligation('gap', site, True, '', f.file, f.l)
        if not arcs:
            c.undecide('layout', site + ' transitions')
        if not finals:
            c.obligation('final', site + ' written', False, 'no final state is written', f.file, f.l)
        steps(c, site, f, h, cv)


def steps(c, site, f, h, cv, ask=True):
    """the state number written goes up by one for each state"""
    if len(cv) != 1:
        c.undecide('state', site)
        return
    var, = cv
    asks = any(b.tr.get('asked') is not None for fn, n, hs, b, A in h.steps)
    for fn, n, hs, b, A in h.steps:
        at = lambda x: A.content(x, var)
        s0, s1 = at(hs), at(b)
        if s0[0] not in ('w', 'k'):
            c.undecide('state', site)
            continue
        d = 0 if s1 == s0 else 1 if s1 == absint.add(s0, 1) else None
        c.obligation('state', '%s loop %s step' % (site, n.get('nid')), d is not None, 'the number written for the states does not go up by one for each', f.file, n.get('l'), path=b.where())
        inner = not any(x is not n and x.get('k') in ('rfor', 'for', 'while', 'do') for x in hf.walk(n.get('b') or n))
        outer = not inner
        if outer and d is not None:
            c.obligation('state', '%s states counted' % site, d == 1, 'the states of the loop all get the same number', f.file, n.get('l'), path=b.where())
        if d == 1 and ask:
            if outer and not asks:
                c.undecide('final', site)
            elif outer:
                c.obligation('final', '%s every state' % site, b.tr.get('asked') == s0, 'a state is left without having been asked whether it is final', f.file, n.get('l'), path=b.where())
                if b.tr.get('asked') == s0:
                    c.obligation('final', '%s written' % site, (b.tr.get('done') == s0) == bool(b.tr.get('fin')), 'a final state is not written, or one that is not is', f.file, n.get('l'), path=b.where())
        if d == 0 and inner and ask:
            c.obligation('final', '%s not by transition' % site, not (b.tr.get('fl') and not hs.tr.get('fl')), 'a final state is written once for every transition', f.file, n.get('l'), path=b.where())


def show(pic):
    names = {'S': '<state>', 'T': '<target>', 'I': '<input>', 'O': '<output>', 'W': '<weight>', 'F': '<final weight>', 'N': '<name>', 'X': '<symbol>', '?': '<?>'}
    return repr(re.sub('\0(.)', lambda m: names[m.group(1)], pic))


def prolog_writer(c, P, q):
    for f, h, A, r in runs(c, P, 'layout', q, lambda f: W(P)):
        site = sig(f)
        ps = [p for p in f.params if 'basic_string' in p['t']]
        name = ('in', ('v', ps[0]['id'])) if ps else None
        cv = set()
        seen = set()
        for fn, tok, s, nd in h.lines:
            pic, got = picture(tok, name)
            ww = weights(A, f, s)
            if '\0?' in pic:
                c.undecide('layout', '%s line %s' % (site, nd.get('l')))
                continue
            kind = 'arc' if any('\0' + k in pic for k in 'TIOW') else 'symbol' if '\0X' in pic else 'final' if '\0S' in pic else 'network'
            want = {'network': ['network(\0N).'], 'symbol': ['symbol(\0N, "\0X").'],
                    'arc': ['arc(\0N, \0S, \0T, "\0I"%s%s).' % (o, w) for o in ('', ':"\0O"') for w in ('', ', \0W')],
                    'final': ['final(\0N, \0S%s).' % w for w in ('', ', \0F')]}[kind]
            seen.add(kind)
            ok = pic in want
            c.obligation('layout', '%s %s' % (site, kind), ok, 'a line for %s is written as %s' % (kind, show(pic)), f.file, nd.get('l'), path=s.where())
            if not ok:
                continue
            if kind in ('arc', 'final') and ww is not None:
                c.obligation('weight', '%s %s' % (site, kind), ('\0W' in pic or '\0F' in pic) == ww, '%s is written %s weight when weights are %s' % ((kind, 'with', 'not asked for') if not ww else (kind, 'without', 'asked for')), f.file, nd.get('l'), path=s.where())
            if kind == 'arc':
                if counter(got['S']):
                    cv.add(counter(got['S']))
                for k, v in got['all']:
                    if k in 'IO':
                        c.obligation('escape', '%s %s' % (site, k), v[0] == 'pro', 'a symbol is written between quotes without being escaped', f.file, nd.get('l'), path=s.where())
                one = '\0O' not in pic
                tr = s.tr
                if one:
                    bad = tr.get('same') is False or tr.get('unki') is not False and tr.get('unko') is not False
                    if tr.get('same') is None:
                        c.undecide('one symbol', site)
                    else:
                        c.obligation('one symbol', site + ' left out', not bad, 'the output symbol is left out where it %s' % ('is another one' if tr.get('same') is False else 'may be unknown, which is then read as identity'), f.file, nd.get('l'), path=s.where())
                elif tr.get('same') and (tr.get('unki') is False or tr.get('unko') is False):
                    c.obligation('one symbol', site + ' written twice', False, 'the same symbol is written on both sides: identity is then read as unknown', f.file, nd.get('l'), path=s.where())
            if kind == 'final' and 'F' in got and got['S'][0] == 'in' and got['F'][0] == 'in':
                fs, ff = got['S'][1], got['F'][1]
                if fs[0] == 'f' and ff[0] == 'f':
                    c.obligation('final', site + ' pair', (fs[2], ff[2]) == ('first', 'second') and fs[1] == ff[1], 'a final line does not hold a state and the weight of that state', f.file, nd.get('l'), path=s.where())
        for k in ('network', 'symbol', 'arc', 'final'):
            c.obligation('layout', '%s %s written' % (site, k), k in seen, 'no %s line is written' % k, f.file, f.l)
        # the loops over final states and symbols do not touch the counter
        if len(cv) == 1:
            var, = cv
            arcl = [n for fn, n, hs, b, A2 in h.steps if A2.content(b, var) != A2.content(hs, var)]
            c.obligation('state', site + ' counted', bool(arcl), 'all states are written with the same number', f.file, f.l)
            for fn, n, hs, b, A2 in h.steps:
                s0, s1 = A2.content(hs, var), A2.content(b, var)
                if s0[0] not in ('w', 'k'):
                    continue
                inner = any(n is x for m in arcl if m is not n for x in hf.walk(m))
                outer = any(m is n for m in arcl)
                if outer or inner:
                    c.obligation('state', '%s %s' % (site, 'loop' if outer else 'inner loop'), s1 == (absint.add(s0, 1) if outer else s0), 'the number written for the states does not go up by one for each', f.file, n.get('l'), path=b.where())
        else:
            c.undecide('state', site)


def escapes(c, P, tables, reader):
    """what the writer replaces, the reader puts back, on both sides and for every way of writing"""
    file = SRC
    ws = sorted({t for v in tables.values() for t in v})
    for (site, k), v in sorted(tables.items()):
        for t in v:
            side = 'input' if k == 'I' else 'output'
            for ch, nm in ((' ', 'space'), ('\t', 'tab'), (EPS, 'epsilon')):
                x = apply(t, ch)
                c.obligation('escape', '%s %s %s' % (site, side, nm), ch == EPS or ' ' not in x and '\t' not in x, '%s in an %s symbol is written as it is: the line then has more fields' % (nm, side), file, 0)
                for (rk, rt) in sorted(reader):
                    if rk == k:
                        y = apply(rt, x)
                        c.obligation('inverse', '%s %s %s' % (site, side, nm), y == ch, '%s in an %s symbol is written as %r and read as %r' % (nm, side, x, y), file, 0)
            for a, b in t:
                for (rk, rt) in sorted(reader):
                    if rk == k:
                        y = apply(rt, apply(t, 'x%sy' % a))
                        c.obligation('inverse', '%s %s %r' % (site, side, a), y == 'x%sy' % a, '%r in an %s symbol is read back as %r' % (a, side, y), file, 0)
    if not reader:
        c.undecide('inverse', 'reader')


def att_reader(c, P):
    reader = set()
    for f, h, A, r in runs(c, P, 'read', B + '::add_att_line', lambda f: R(P)):
        ep = [('in', ('v', p['id'])) for p in f.params if 'basic_string' in p['t']]
        for fn, fmt, convs, nd in h.scans:
            c.obligation('fields', 'AT&T line', len(convs) == 5 and all(re.fullmatch(r'%s', x) for x in convs) and not CONV.sub('', fmt).strip(), 'a line is not scanned as five fields between white space but as %r' % fmt, f.file, nd.get('l'))
        for s, v in states(r, 'ret'):
            n = s.tr.get('n')
            if n is None:
                continue
            d = s.tr.get('did') or ()
            site = 'AT&T line of %s fields' % n
            where = dict(file=f.file, line=f.l, path=s.where())
            if n in (1, 2):
                want = ('fin', ('int', ('F', 0)), K(0) if n == 1 else ('flt', ('F', 1)))
                same(c, 'fields', site, d, want, v, 'a line "state%s" makes %s' % (' weight' if n == 2 else '', '%s'), where)
            elif n in (4, 5):
                if not ok_done(c, site, d, 'arc', v, where):
                    continue
                a = d[0]
                if len(a) != 3 or a[2][0] != 'trn':
                    c.undecide('fields', site)
                    continue
                t = a[2]
                c.obligation('fields', site + ' source', a[1] == ('int', ('F', 0)), 'the source state is not the first field', **where)
                c.obligation('fields', site + ' target', t[1] == ('int', ('F', 1)), 'the target state is not the second field', **where)
                w = K(0) if n == 4 else ('flt', ('F', 4))
                c.obligation('fields', site + ' weight', t[4] == w or n == 4 and t[4] == K(0.0), 'the weight is not %s' % ('the fifth field' if n == 5 else '0'), **where)
                eqs = {x: e for p, q, e in (s.tr.get('eqs') or ()) for x, y in ((p, q), (q, p)) if y in ep}
                for k, i, side in (('I', 2, 'input'), ('O', 3, 'output')):
                    x = t[2 if k == 'I' else 3]
                    rs, base = chain(x)
                    if isk(x) or rs is None or base[0] not in ('F',):
                        if x == K(EPS):
                            hit = [e for y, e in eqs.items() if chain(y)[1] == ('F', i)]
                            c.obligation('epsilon', site + ' ' + side, any(hit) or not hit, 'the %s symbol becomes epsilon though it is not the symbol for epsilon' % side, **where)
                        else:
                            c.undecide('fields', site + ' ' + side)
                        continue
                    c.obligation('fields', '%s %s' % (site, side), base == ('F', i), 'the %s symbol is not field %d' % (side, i + 1), **where)
                    hit = [e for y, e in eqs.items() if chain(y)[1] == base]
                    c.obligation('epsilon', site + ' ' + side, not any(hit), 'the %s symbol stays though it is the symbol for epsilon' % side, **where)
                    reader.add((k, tuple(rs)))
            else:
                c.obligation('fields', site, not d and v != K(True), 'a line of %s fields is taken' % n, **where)
    return reader


def ok_done(c, site, d, kind, v, where):
    good = len(d) == 1 and d[0][0] == kind
    c.obligation('fields', site + ' taken', good and v != K(False), 'such a line does not make one %s' % {'arc': 'transition', 'fin': 'final state', 'sym': 'symbol'}[kind], **where)
    return good


def same(c, rule, site, d, want, v, msg, where):
    if not ok_done(c, site, d, want[0], v, where):
        return
    for a, b, what in zip(d[0][1:], want[1:], {'fin': ('state', 'weight'), 'sym': ('symbol',)}[want[0]]):
        if a == b or isk(a) and isk(b) and a[1] == b[1]:
            c.obligation(rule, '%s %s' % (site, what), True, '', **where)
        elif a[0] in ('int', 'flt', 'k', 'dep', 'strip', 'F', 'xw'):
            c.obligation(rule, '%s %s' % (site, what), False, 'the %s is not taken from its field' % what, **where)
        else:
            c.undecide(rule, '%s %s' % (site, what))


def named(s):
    for a, b, e in s.tr.get('eqs') or ():
        for x, y in ((a, b), (b, a)):
            if x == ('F', 0) and y[0] == 'in' and y[1][0] == 'f' and y[1][2] == 'name':
                return e
    return None


def prolog_reader(c, P):
    for kind, fn, free in (('final', 'parse_prolog_final_line', None), ('arc', 'parse_prolog_arc_line', 3), ('symbol', 'parse_prolog_symbol_line', 1)):
        for f, h, A, r in runs(c, P, 'read', B + '::' + fn, lambda f: R(P)):
            for x, fmt, convs, nd in h.scans:
                site = 'prolog %s line %d' % (kind, len(convs))
                c.obligation('fields', site + ' prefix', fmt.startswith(kind + '('), 'the line is scanned as %r' % fmt, f.file, nd.get('l'))
                lits = CONV.sub('\0', fmt)
                pat = {'final': ['final(\0, \0).', 'final(\0, \0, \0).'], 'arc': ['arc(\0, \0, \0, \0'], 'symbol': ['symbol(\0, \0']}[kind]
                c.obligation('fields', site + ' separators', lits.rstrip(').') in [p.rstrip(').') for p in pat], 'the fields of the line are scanned as %r' % fmt, f.file, nd.get('l'))
                if free is not None and len(convs) > free:
                    for ch, nm in ((' ', 'a space'), ('\t', 'a tab'), (',', 'a comma'), (')', 'a parenthesis'), (':', 'a colon')):
                        c.obligation('fields', '%s symbol with %s' % (site, nm), accepts(convs[free], ch), 'a symbol ends at %s, which is written as it is' % nm, f.file, nd.get('l'))
            n = 0
            for s, v in states(r, 'ret'):
                d = s.tr.get('did') or ()
                where = dict(file=f.file, line=f.l, path=s.where())
                site = 'prolog %s line' % kind
                if v == K(False):
                    c.obligation('fields', site + ' refused', not d, 'a line that is refused changes the transducer', **where)
                    full = s.tr.get('n') == s.tr.get('nc') and s.tr.get('n')
                    gone = [k for k in ('fail', 'ok', 'ok2', 'strip_ending_parenthesis_and_comma', 'strip_quotes_from_both_sides') if s.tr.get(k) is (k == 'fail')]
                    if full and not gone and named(s) is True:
                        c.obligation('fields', site + ' accepted', False, 'a line whose fields could all be read is refused', **where)
                    continue
                if v != K(True):
                    continue
                n += 1
                c.obligation('fields', site + ' complete', s.tr.get('n') == s.tr.get('nc'), 'a line is taken though only %s of %s fields were read' % (s.tr.get('n'), s.tr.get('nc')), **where)
                nm = named(s)
                if nm is not None:
                    c.obligation('fields', site + ' name', nm, 'a line is taken that is of another network', **where)
                elif any(x.get('k') == 'call' and short(x.get('fn') or '') in ('strcmp', 'strncmp', 'equal') for x in hf.walk(f.body)):
                    c.undecide('fields', site + ' name')
                else:
                    c.obligation('fields', site + ' name', False, 'a line is taken without a look at the name of its network', **where)
                for k in ('ok', 'ok2', 'strip_ending_parenthesis_and_comma', 'strip_quotes_from_both_sides'):
                    if k in s.tr:
                        c.obligation('fields', site + ' parts', s.tr[k], 'a line is taken though part of it could not be read', **where)
                if s.tr.get('fail') is not None:
                    c.obligation('fields', site + ' weight read', not s.tr['fail'], 'a line is taken though its weight could not be read', **where)
                if kind == 'final':
                    same(c, 'fields', '%s of %s fields' % (site, s.tr.get('nc')), d, ('fin', ('int', ('F', 1)), K(0) if s.tr.get('nc') == 2 else ('flt', ('F', 2))), v, '', where)
                elif kind == 'symbol':
                    if ok_done(c, site, d, 'sym', v, where):
                        x = d[0][1]
                        c.obligation('escape', site, x[0] == 'dep' or x[0] not in ('strip', 'F'), 'the symbol is not unescaped', **where)
                        while x[0] in ('strip', 'dep'):
                            x = x[-1]
                        if x[0] == 'F':
                            c.obligation('fields', site + ' symbol', x == ('F', 1), 'the symbol is not the second field', **where)
                else:
                    if not ok_done(c, site, d, 'arc', v, where):
                        continue
                    a = d[0]
                    if a[2][0] != 'trn':
                        c.undecide('fields', site)
                        continue
                    t = a[2]
                    c.obligation('fields', site + ' source', a[1] == ('int', ('F', 1)), 'the source state is not the second field', **where)
                    c.obligation('fields', site + ' target', t[1] == ('int', ('F', 2)), 'the target state is not the third field', **where)
                    for k, x, side in (('I', t[2], 'input'), ('O', t[3], 'output')):
                        if x[0] == 'sym':
                            c.obligation('fields', '%s %s' % (site, side), x[1] == k, 'the %s symbol is that of the other side' % side, **where)
                            while x[0] in ('sym', 'cut', 'strip'):
                                x = x[-1]
                            if x[0] == 'F':
                                c.obligation('fields', '%s %s field' % (site, side), x == ('F', 3), 'the symbols are not the fourth field', **where)
                        else:
                            c.undecide('fields', '%s %s' % (site, side))
                    if t[4][0] == 'xw' or isk(t[4]):
                        c.obligation('fields', site + ' weight', t[4][0] == 'xw', 'the weight of the line is dropped', **where)
                    else:
                        c.undecide('fields', site + ' weight')
            if not n:
                c.undecide('read', fn)


def accepts(conv, ch):
    m = re.fullmatch(r'%\[(\^?)(\]?[^\]]*)\]', conv)
    if m:
        return (ch in m.group(2)) != bool(m.group(1))
    if re.fullmatch(r'%\d*s', conv):
        return ch not in ' \t\n'
    return True


class Num:
    def __init__(self, q, size):
        self.q, self.size = q, size

    def ev(self, t):
        t = uncst(t)
        if isk(t):
            return t[1] if isinstance(t[1], int) else None
        if t[0] == 'elt' and isk(t[-1]) and isinstance(t[-1][1], int) and t[-1][1] < len(self.q):
            return self.q[t[-1][1]]
        if t[0] == 'in' and t[1][0] == 'i' and isk(t[1][2]) and t[1][2][1] < len(self.q):
            return self.q[t[1][2][1]]
        if t[0] == 'sz':
            return self.size
        if t[0] == '+':
            a = self.ev(t[1])
            return None if a is None else a + t[2]
        if t[0] == 'op' and len(t) == 4 and t[1] in '+-':
            a, b = self.ev(t[2]), self.ev(t[3])
            return None if a is None or b is None else a + b if t[1] == '+' else a - b
        return None


def arc_symbols(c, P):
    """"I":"O" and "I": which characters become which symbol"""
    for f, h, A, r in runs(c, P, 'quotes', B + '::get_prolog_arc_symbols', lambda f: R(P)):
        if len(f.params) != 3:
            c.undecide('quotes', f.q)
            continue
        il, ol = ('v', f.params[1]['id']), ('v', f.params[2]['id'])
        il, ol = [('v', p['id']) for p in f.params[1:]]
        n = 0
        for s, v in states(r, 'ret'):
            where = dict(file=f.file, line=f.l, path=s.where())
            i, o = A.content(s, il), A.content(s, ol)
            if v == K(False):
                continue
            two = i == o
            if i[0] == 'dep':
                n += 1
            for x, q, num, side in ((i, 0, Num((0, 4, 6, 11), 12), 'input'), (o, 2, Num((0, 4, 6, 11), 12), 'output')):
                if two:
                    q, num = 0, Num((0, 4), 5)
                if isk(x):
                    continue
                if x[0] != 'dep':
                    if x[0] == 'ctor':
                        c.obligation('escape', 'prolog arc %s' % side, False, 'the %s symbol is not unescaped' % side, **where)
                    else:
                        c.undecide('quotes', side)
                    continue
                y = x[1]
                if y[0] == 'ctor' and len(y) >= 5:
                    a, b = num.ev(y[3]), num.ev(y[4])
                    if a is None or b is None:
                        c.undecide('quotes', side)
                        continue
                    c.obligation('quotes', 'prolog arc %s %s' % ('one symbol' if two else 'two symbols', side), (a, b) == (num.q[q] + 1, num.q[q + 1] - num.q[q] - 1), 'the %s symbol is not what is between its quotes' % side, **where)
                else:
                    c.undecide('quotes', side)
            eqs = [(a, b, e) for a, b, e in s.tr.get('eqs') or () if K(UNK) in (a, b)]
            if two and eqs:
                if eqs[-1][2]:
                    c.obligation('one symbol', 'single unknown', i == K(IDE), 'a single unknown symbol is not read as identity', **where)
                else:
                    c.obligation('one symbol', 'single symbol', i != K(IDE), 'a single symbol that is not unknown is read as identity', **where)
            elif two and i[0] == 'dep':
                c.obligation('one symbol', 'single unknown', False, 'a single unknown symbol is not read as identity', **where)
        if not n:
            c.undecide('quotes', f.q)
    for f, h, A, r in runs(c, P, 'quotes', B + '::extract_weight', lambda f: R(P)):
        if len(f.params) != 2:
            continue
        wl = ('v', f.params[1]['id'])
        for s, v in states(r, 'ret'):
            if v != K(True):
                continue
            where = dict(file=f.file, line=f.l, path=s.where())
            cut, w = s.tr.get('cut'), A.content(s, wl)
            c.obligation('quotes', 'weight cut off', (cut is not None) == (w[0] == 'flt'), 'the weight is read but left in the symbols, or cut off without being read', **where)
            if cut is not None:
                b, k = lin(cut)
                c.obligation('quotes', 'weight cut at', k == -1 or b[0] != 'm' or 'find_last_of' not in b[1], 'the comma before the weight is not cut off with it', **where)


def table(c, P, q):
    """constants a symbol is mapped to, and the replacements made in others"""
    tab, default, unk = {}, set(), set()
    for f, h, A, r in runs(c, P, 'prolog escapes', q, lambda f: R(P)):
        par = ('in', ('v', f.params[0]['id']))
        for s, v in states(r, 'ret'):
            pos = [(b if a == par else a) for a, b, e in s.tr.get('eqs') or () if e and par in (a, b)]
            neg = {(b if a == par else a) for a, b, e in s.tr.get('eqs') or () if not e and par in (a, b)}
            if pos and isk(pos[-1]) and isk(v):
                if pos[-1] not in neg and len(set(pos)) == 1:
                    tab[pos[-1][1]] = (v[1], f)
            elif not pos:
                rs, base = chain(v)
                if rs is None or base != par:
                    c.undecide('prolog escapes', q)
                else:
                    default.add(tuple(rs))
            else:
                unk |= {x[1] for x in pos if isk(x)}
                c.undecide('prolog escapes', q)
        return tab, default, f, unk
    return None


def prolog_escapes(c, P):
    w, r = table(c, P, B + '::prologize_symbol'), table(c, P, B + '::deprologize_symbol')
    if not w or not r or len(w[1]) != 1 or len(r[1]) != 1:
        c.undecide('prolog escapes', 'tables')
        return
    wd, = w[1]
    rd, = r[1]

    def wr(x):
        return w[0][x][0] if x in w[0] else apply(wd, x)

    def rdr(x):
        return r[0][x][0] if x in r[0] else apply(rd, x)
    f = w[2]
    for x in sorted(set(w[0]) | {v[0] for v in r[0].values()} | {EPS, UNK, IDE, '0', '?', 'a'}):
        if x in w[3] or wr(x) in r[3]:
            continue
        y = rdr(wr(x))
        want = UNK if x == IDE else x
        c.obligation('prolog escapes', 'symbol %r' % x, y == want, '%r is written as "%s" and read as %r' % (x, wr(x), y), f.file, f.l)
    # characters that mean something between quotes
    import itertools
    chars = sorted({ch for a, b in wd + rd for ch in a + b} | {'"', '\\'})[:5]
    bad = good = 0
    first = None
    for n in range(1, 5):
        for t in itertools.product(chars + ['a'], repeat=n):
            x = ''.join(t)
            y = wr(x)
            if rdr(y) != x or re.sub(r'\\(.)', '', y, flags=re.S).count('"') or re.sub(r'\\.', '', y, flags=re.S).endswith('\\'):
                bad += 1
                first = first or x
            else:
                good += 1
    c.cov['strings the escape tables were composed on'] = bad + good
    c.obligation('prolog escapes', 'escaped characters', not bad, '%r is written as "%s" and read as %r' % (first, wr(first or ''), rdr(wr(first or ''))), f.file, f.l)


class L(absint.Hooks):
    """the loop over the lines: a line that is not understood is an error"""
    P3 = ('parse_prolog_arc_line', 'parse_prolog_final_line', 'parse_prolog_symbol_line')

    def call(self, A, s, node, fn, recv, args):
        sh = short(fn)
        if sh == 'add_att_line':
            self.count += 1
            return [(s.with_tr(bad=s.tr.get('bad')), K(True)), (s.with_tr(bad=True), K(False))]
        if sh in self.P3:
            self.count += 1
            no = tuple(sorted(set(s.tr.get('no') or ()) | {sh}))
            return [(s.with_tr(no=()), K(True)), (s.with_tr(no=no, bad=s.tr.get('bad') or (True if len(no) == 3 else None)), K(False))]
        if sh == 'parse_prolog_network_line':
            self.count += 1
            return [(s, K(True)), (s.with_tr(bad=True), K(False))]
        if sh in ('get_stripped_line', 'read_line'):
            self.count += 1
            return [(s, ('line',))]
        return None

    def inline(self, A, fn):
        return False


def loops(c, P):
    for q in ('read_in_att_format', 'read_in_prolog_format'):
        n = 0
        for f in P.fns.values():
            if f.q != B + '::' + q or not f.body or not any(x.get('k') in ('while', 'for', 'do') for x in hf.walk(f.body)):
                continue
            A = absint.A(P, L())
            try:
                r = A.run(f, absint.St())
            except RuntimeError:
                c.undecide('refused', q)
                continue
            n += 1
            for s, v in states(r, 'ret'):
                c.obligation('refused', q, not s.tr.get('bad'), 'a line that could not be read does not make an error', f.file, f.l, path=s.where())
            c.obligation('refused', q + ' throws', any(x.tr.get('bad') for x, _ in states(r, 'throw')), 'no error is raised for a line that could not be read', f.file, f.l)
        if not n:
            c.undecide('refused', q)
    # lines are read whole
    k = 0
    for f in P.fns.values():
        if not f.body or not f.file.endswith('HfstBasicTransducer.cc'):
            continue
        par = [x for x in hf.walk(f.body) if x.get('k') in ('while', 'do', 'for')]
        for x in hf.walk(f.body):
            if x.get('k') != 'call':
                continue
            sh = short(x.get('fn') or '')
            if not (sh == 'fgets' or sh == 'getline' and x.get('o')):
                continue
            a = x['args'][0]
            while a.get('k') in ('cast', 'un'):
                a = a.get('e') or a
            buf = a.get('n')
            k += 1
            lp = [p for p in par if any(y is x for y in hf.walk(p))]
            joined = any(y.get('k') == 'call' and short(y.get('fn') or '') in ('append', 'operator+=', 'push_back', 'insert') and any(z.get('k') == 'ref' and z.get('n') == buf for g in y.get('args') or [] for z in hf.walk(g))
                         for p in lp for y in hf.walk(p))
            passed = any(y.get('k') in ('call', 'ctor') and short(y.get('fn') or '') not in ('fgets', 'getline', 'append', 'operator+=') and any(z.get('k') == 'ref' and z.get('n') == buf for g in y.get('args') or [] for z in hf.walk(g))
                         for y in hf.walk(f.body))
            if joined:
                c.obligation('whole lines', f.q, True, '', f.file, x.get('l'))
            elif passed:
                c.obligation('whole lines', f.q, False, 'a line is read into a buffer of fixed length and used as it is: a longer line is cut in two', f.file, x.get('l'))
            else:
                c.undecide('whole lines', f.q)


def parity(c, P):
    """a quote is escaped by an odd number of backslashes: more than the character before it has to be looked at"""
    n = 0
    for f in P.fns.values():
        if f.q != B + '::get_positions_of_unescaped_char' or not f.body or len(f.params) != 3:
            continue
        esc = f.params[2]['id']
        loops = [x for x in hf.walk(f.body) if x.get('k') in ('for', 'while', 'do', 'rfor')]
        outer = [x for x in loops if not any(x is not y and any(z is x for z in hf.walk(y)) for y in loops)]
        for lp in outer:
            if not any(x.get('k') == 'ref' and x.get('id') == esc for x in hf.walk(lp)):
                continue
            n += 1
            nested = any(y is not lp and any(x.get('k') == 'ref' and x.get('id') == esc for x in hf.walk(y)) for y in hf.walk(lp) if y.get('k') in ('for', 'while', 'do', 'rfor', 'call', 'lambda')
                         and (y.get('k') != 'call' or (y.get('u') in P.fns and P.fns[y['u']].body)))
            head = {x.get('id') for k in ('i', 'c', 'e', 'inc', 'init', 'cond', 'step') if isinstance(lp.get(k), dict) for x in hf.walk(lp[k]) if x.get('k') in ('ref', 'vardecl')}
            kept = any((x.get('k') == 'asg' and (x.get('a') or {}).get('k') == 'ref' and x['a'].get('id') not in head) or (x.get('k') == 'un' and x.get('op') in ('++', '--', 'p++', 'p--', 'post++') and (x.get('e') or {}).get('k') == 'ref'
                       and x['e'].get('id') not in head) for x in hf.walk(lp.get('b') or lp))
            c.obligation('prolog escapes', 'escaped quote', nested or kept, 'whether a quote is escaped is decided by the one character before it: a backslash that is itself escaped hides the closing quote', f.file, lp.get('l'))
    if not n:
        c.undecide('prolog escapes', 'escaped quote')


class V(absint.Hooks):
    """what a function hands on to the text reader or writer it calls"""

    def __init__(self, P):
        self.P = P
        self.seen = []

    def inline(self, A, fn):
        return False

    def call(self, A, s, node, fn, recv, args):
        sh = short(fn)
        if sh in ('write_in_att_format', 'write_in_att_format_number', 'write_in_prolog_format', 'read_in_att_format', 'read_in_prolog_format') or sh == 'HfstTransducer' and len(args[0]) == 4:
            self.seen.append((sh, args[0], node, s))
        return None


def wrappers(c, P):
    """weights asked for, warnings and the symbol for epsilon are handed on as they were given"""
    n = 0
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.l)):
        if not f.body or not re.match(r'(write|read)_in_(att|prolog)_format|HfstTransducer$', f.name or '') or f.name == 'HfstTransducer' and len(f.params) < 4:
            continue
        bools = [p for p in f.params if p['t'] == 'bool']
        strs = [p for p in f.params if 'basic_string' in p['t'] and 'name' not in (p['n'] or '')]
        if len(bools) != 1:
            continue
        h = V(P)
        A = absint.A(P, h)
        try:
            A.run(f, absint.St())
        except RuntimeError:
            c.undecide('handed on', sig(f))
            continue
        for sh, vals, nd, s in h.seen:
            g = P.fns.get(nd.get('u'))
            ps = g.params if g else None
            if not ps or len(ps) != len(vals):
                continue
            for p, v in zip(ps, vals):
                site = '%s:%d %s' % (sig(f), f.l, sh)
                v = uncst(v)
                if p['t'] == 'bool':
                    want = ('in', ('v', bools[0]['id']))
                    lo, hi, ne, eq = A.constraint(s, want)
                    if v == want or isk(v):
                        n += 1
                        c.obligation('handed on', site + ' flag', v == want or eq is not None and bool(eq) == bool(v[1]), 'the %s given is not handed on' % (bools[0]['n'] or 'flag'), f.file, nd.get('l'), path=s.where())
                    elif v[0] in ('eq', '==', 'not', 'op') and absint.contains(v, want):
                        c.obligation('handed on', site + ' flag', False, 'the %s given is not handed on as it is' % (bools[0]['n'] or 'flag'), f.file, nd.get('l'), path=s.where())
                    else:
                        c.undecide('handed on', site + ' flag')
                elif 'basic_string' in p['t'] and len(strs) == 1 and 'eps' in (p['n'] or '') + (strs[0]['n'] or ''):
                    want = ('in', ('v', strs[0]['id']))
                    if v == want or isk(v):
                        n += 1
                        c.obligation('handed on', site + ' epsilon', v == want, 'the symbol for epsilon is not the one given', f.file, nd.get('l'), path=s.where())
                    elif not absint.contains(v, want):
                        c.undecide('handed on', site + ' epsilon')
    c.cov['flags and epsilon symbols handed on'] = n


def separators(c, P):
    """what is written between two transducers ends one for the reader"""
    Q = hf.Program(['tools/src/hfst-fst2txt.cc'])
    fs = [f for f in Q.fns.values() if f.name == 'process_stream' and f.body]
    if len(fs) != 1:
        c.undecide('separator', 'hfst-fst2txt')
        return
    f, = fs
    en = {}
    for d in Q.enums.values():
        for k, v in d.items():
            if k.split('::')[-1] in ('ATT_TEXT', 'PROLOG_TEXT'):
                en[k.split('::')[-1]] = v

    def test(e, v):
        """value of a condition when the format is v (None: not known)"""
        while isinstance(e, dict) and e.get('k') in ('cast', 'paren'):
            e = e.get('e')
        if not isinstance(e, dict):
            return None
        if e.get('k') == 'un' and e.get('op') == '!':
            t = test(e['e'], v)
            return None if t is None else not t
        if e.get('k') == 'bin' and e.get('op') in ('&&', '||'):
            x, y = test(e['a'], v), test(e['b'], v)
            if e['op'] == '&&':
                return False if x is False or y is False else True if x and y else None
            return True if x or y else False if x is False and y is False else None
        if e.get('k') == 'bin' and e.get('op') in ('==', '!='):
            ns = [[z for z in hf.walk(x)] for x in (e['a'], e['b'])]
            for x, y in (ns, ns[::-1]):
                if any(z.get('n') == 'format' for z in x):
                    for z in y:
                        w = z.get('v') if z.get('k') == 'int' else en.get((z.get('n') or '').split('::')[-1])
                        if w is not None:
                            return (w == v) == (e['op'] == '==')
        return None

    def lits(n, v, inpr, out):
        """the separators that can be printed when the format is v"""
        if isinstance(n, list):
            for x in n:
                lits(x, v, inpr, out)
            return
        if not isinstance(n, dict):
            return
        k = n.get('k')
        if k in ('if', 'cond'):
            t = test(n.get('c'), v)
            lits(n.get('c'), v, inpr, out)
            if t is not False:
                lits(n.get('a'), v, inpr, out)
            if t is not True:
                lits(n.get('b'), v, inpr, out)
            return
        if k == 'call' and short(n.get('fn') or '') in ('fprintf', 'fputs', 'puts', 'operator<<'):
            inpr = n.get('l')
        if k == 'str' and inpr and n.get('v') == '--\n':
            out.add(inpr)
        for x in n.values():
            if isinstance(x, (dict, list)):
                lits(x, v, inpr, out)

    for nm in ('ATT_TEXT', 'PROLOG_TEXT'):
        if nm not in en:
            c.undecide('separator', nm)
            continue
        out = set()
        lits(f.body, en[nm], None, out)
        if nm == 'ATT_TEXT' and not out:
            c.undecide('separator', nm)
        elif nm == 'ATT_TEXT':
            c.obligation('separator', nm, True, '', f.file, f.l)
        else:
            c.obligation('separator', nm, not out, 'a line "--" is written between two networks in prolog format, which are separated by an empty line for the reader', f.file, min(out or {f.l}))


def work(c):
    P = hf.Program([SRC, LIB + 'HfstTransducer.cc'])
    tables = {}
    att_writer(c, P, B + '::write_in_att_format', False, tables)
    att_writer(c, P, B + '::write_in_att_format_number', True, {})
    prolog_writer(c, P, B + '::write_in_prolog_format')
    reader = att_reader(c, P)
    escapes(c, P, tables, reader)
    prolog_reader(c, P)
    arc_symbols(c, P)
    prolog_escapes(c, P)
    parity(c, P)
    loops(c, P)
    wrappers(c, P)
    separators(c, P)
    c.floor('ways of writing AT&T text', len({s for s, k in tables}), 3)


def debug():
    P = hf.Program([SRC])
    for n in sys.argv[2:]:
        for f in P.byq[B + '::' + n]:
            f = P.fns[f] if not hasattr(f, 'q') else f
            if not f.body:
                continue
            h = R(P) if sys.argv[1] == 'r' else W(P)
            A = absint.A(P, h)
            r = A.run(f, absint.St())
            print('==', f.q, [p['t'] for p in f.params], {k: len(v) for k, v in r.items()})
            for x in r['ret']:
                x, v = x if isinstance(x, tuple) else (x, None)
                t = dict(x.tr)
                fl = {p: ('F', i) for i, p in enumerate(t.pop('flds', ()))}
                def sub(u):
                    if u in fl: return fl[u]
                    return tuple(sub(z) for z in u) if isinstance(u, tuple) else u
                print('  RET', v, {k: sub(z) for k, z in t.items()})


if __name__ == '__main__':
    if len(sys.argv) > 2 and sys.argv[1] in ('r', 'w'):
        debug()
    else:
        chk.main('C08', work, 'The AT&T and prolog writers are run abstractly with the text of each line as the state: every line they can write is a sequence of fixed text and values, compared with the '
                 'columns of the format; state numbers, final states and weights are followed through the loops. The readers are run with the fields of a scanned line as symbols, and what they build is compared '
                 'with the column each value comes from. The replacement tables extracted from both sides are composed.')
