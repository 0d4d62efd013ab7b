#!/usr/bin/env python3
"""C02: binary operations refuse operands of different implementation types, before any effect, and never modify
an operand passed by constant reference."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import hf, chk
from absint import A, St, Hooks, K, isk, short, contains, root, mkeq
from htype import *

T = ('T',)
# binary operations of the public interface that require operands of one type (confirmed by reading)
OPS = {'compare', 'compose', 'concatenate', 'disjunct', 'intersect', 'subtract', 'cross_product', 'shuffle', 'priority_union',
       'lenient_composition', 'insert_freely', 'harmonize', 'harmonize_flag_diacritics', 'apply', 'harmonize_', 'operator=', 'assign'}
OPS_SUBST = 'substitute'         # substitute(StringPair, HfstTransducer&, bool)
UNOBSERVABLE = {'is_trie'}       # internal hint, no visible effect
# non-const reference operands that are nevertheless inputs only
INPUT_REF = {('apply', 'HfstTransducer &')}


def binary(f):
    if f.cls != HT or f.kind in ('ctor', 'dtor') or f.st:
        return None
    ps = [p for p in f.params if ishfst(p['t']) and p['t'].rstrip().endswith('&')]
    if len(ps) == 1 and (f.name in OPS or f.name == OPS_SUBST):
        return ps[0]
    return None


class H(TypeHooks):
    def __init__(self, P, pl):
        super().__init__(P)
        self.pl = pl
        self.eff = []

    def store(self, A, s, loc, val, node):
        r = root(loc)
        if r == T or r == self.pl:
            x = loc
            while x[0] in ('f', 'i') and x[1] != r:
                x = x[1]
            if x[0] == 'f' and x[2] in UNOBSERVABLE:
                return
            self.eff.append((r, x[2] if x[0] == 'f' else None, node['l'] if node else 0, s))

    def call(self, A, s, node, fn, recv, args):
        vals, locs = args
        f = self.P.fns.get(node.get('u'))
        if f is not None and binary(f) is not None and recv is not None:
            i = [k for k, p in enumerate(f.params) if p is binary(f)][0]
            if i < len(vals):
                tr = A.simp(s, A.content(s, self.tyloc(recv)))
                al = locs[i]
                ta = A.simp(s, A.content(s, self.tyloc(al))) if al is not None else A.fldof(vals[i], 'type')
                if isk(tr) and isk(ta) and tr != ta:
                    A.throws[-1].append((s, 'TransducerTypeMismatchException'))
                    return []        # refused by the callee (verified separately)
        return super().call(A, s, node, fn, recv, args)


class HC(TypeHooks):
    """operand effects: which stores reach the operand"""
    def __init__(self, P, pl, safe):
        super().__init__(P)
        self.pl, self.safe, self.eff, self.recv = pl, safe, [], {}

    def call(self, A, s, node, fn, recv, args):
        self.recv[node.get('nid')] = recv
        return super().call(A, s, node, fn, recv, args)

    def store(self, A, s, loc, val, node):
        if root(loc) == self.pl:
            if node is not None and node.get('k') in ('call', 'ctor'):
                f = self.P.fns.get(node.get('u'))
                rv = self.recv.get(node.get('nid'))
                if f is not None and f.u in self.safe and not (rv is not None and root(rv) == self.pl):
                    return
            self.eff.append((loc, node, s))


def check(c):
    P = hf.Program([hf.LIB + 'HfstTransducer.cc', hf.LIB + 'HfstApply.cc'])
    TY = types(P)
    pairs = [('SFST_TYPE', 'TROPICAL_OPENFST_TYPE'), ('TROPICAL_OPENFST_TYPE', 'SFST_TYPE'), ('TROPICAL_OPENFST_TYPE', 'LOG_OPENFST_TYPE'),
             ('LOG_OPENFST_TYPE', 'TROPICAL_OPENFST_TYPE'), ('LOG_OPENFST_TYPE', 'FOMA_TYPE'), ('FOMA_TYPE', 'TROPICAL_OPENFST_TYPE'),
             ('FOMA_TYPE', 'SFST_TYPE'), ('SFST_TYPE', 'FOMA_TYPE'), ('HFST_OL_TYPE', 'TROPICAL_OPENFST_TYPE'), ('TROPICAL_OPENFST_TYPE', 'HFST_OLW_TYPE')]
    if c.tier == 'thorough':
        ts = ['SFST_TYPE', 'TROPICAL_OPENFST_TYPE', 'LOG_OPENFST_TYPE', 'FOMA_TYPE', 'HFST_OL_TYPE', 'HFST_OLW_TYPE']
        pairs = [(a, b) for a in ts for b in ts if a != b]
    n = 0
    fns = sorted((f for f in P.fns.values() if binary(f)), key=lambda f: (f.file, f.l))
    seen = set()
    for f in fns:
        p = binary(f)
        seen.add(f.name)
        for t1, t2 in pairs:
            if t1 not in TY or t2 not in TY:
                continue
            pl = ('v', p['id'])
            h = H(P, pl)
            a = A(P, h)
            s = St()
            s.mem[('f', T, 'type')] = K(TY[t1])
            s.mem[('f', pl, 'type')] = K(TY[t2])
            a.content(s, T)
            # the operands are different objects
            s.facts[mkeq(('addr', pl), ('addr', T))] = (0, 0, frozenset(), None)
            r = a.run(f, s)
            site = '%s: %s with %s' % (f.name, t1.replace('_TYPE', ''), t2.replace('_TYPE', ''))
            n += 1
            if r['ret']:
                c.obligation('mismatch-refused', site, False, 'the operation completes on operands of different types', f.file, f.l,
                             key='mismatch-refused|' + f.name, path=r['ret'][0][0].where())
                continue
            bad = [t for _, t in r['throw'] if 'TypeMismatch' not in str(t)]
            mm = [t for _, t in r['throw'] if 'TypeMismatch' in str(t)]
            if not mm:
                if all(t in (None, '?') for t in bad):
                    c.undecide('mismatch-refused', site, repr(bad))
                else:
                    c.obligation('mismatch-refused', site, False, 'refused with %s instead of a type mismatch exception' % bad[:2], f.file, f.l,
                                 key='mismatch-exception|' + f.name)
                continue
            eff = h.eff
            if eff:
                r0, fld, ln, st = eff[0]
                c.obligation('mismatch-no-effect', site, False, '%s of the %s is changed before the operands are refused' % (
                    fld, 'left operand' if r0 == T else 'right operand'), f.file, ln, key='mismatch-effect|%s|%s' % (f.name, fld), path=st.where())
            else:
                c.obligation('mismatch-refused', site, True)
    c.floor('binary operations', len(seen), 12)
    # constant operands
    ops = []
    for f in P.fns.values():
        if f.cls == HT and f.kind != 'dtor':
            for p in f.params:
                if ishfst(p['t']) and (p['t'].startswith('const') and p['t'].rstrip().endswith('&') or f.name == 'apply'):
                    ops.append((f, p))
    safe = {f.u for f, p in ops}
    k = 0
    for f, p in sorted(ops, key=lambda x: (x[0].file, x[0].l)):
        h = HC(P, ('v', p['id']), safe)
        a = A(P, h)
        s = St()
        s.facts[mkeq(('addr', ('v', p['id'])), ('addr', T))] = (0, 0, frozenset(), None)
        a.run(f, s)
        k += 1
        site = '%s(%s): operand %s' % (f.q, ', '.join(q['t'].replace('hfst::', '')[-26:] for q in f.params[:2]), p['n'])
        if h.eff:
            loc, node, st = h.eff[0]
            c.obligation('operand-untouched', site, False, 'the operand is modified here', f.file, node['l'] if node else f.l, path=st.where())
        else:
            c.obligation('operand-untouched', site, True)
    c.floor('constant operands', k, 20)


chk.main('C02', check, 'path analysis of every binary operation with the two type tags fixed to each pair of different types: no path returns, every '
         'path raises the type mismatch exception before any write to either operand; and effect analysis of operands passed by constant reference')
