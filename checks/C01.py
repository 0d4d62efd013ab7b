#!/usr/bin/env python3
"""C01: a transducer's declared implementation type always agrees with the backend object it holds."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import hf, chk
from absint import A, St, Hooks, K, isk, short, contains, root, mkeq
from htype import *

T = ('T',)
TAG = ('f', T, 'type')
STREAMS = ('hfst::HfstInputStream', 'hfst::HfstOutputStream')
KINDS = ['SFST_TYPE', 'TROPICAL_OPENFST_TYPE', 'LOG_OPENFST_TYPE', 'FOMA_TYPE']
SETTERS = ('convert', 'operator=', 'assign', 'convert_to_hfst_transducer')


class H(TypeHooks):
    def __init__(self, P, TY):
        super().__init__(P)
        self.TY = TY
        self.acc = {}

    def load(self, A, s, loc, node):
        if loc[0] == 'f' and loc[2] in MEMBERS and loc[1][0] == 'f' and loc[1][2] == 'implementation' and node is not None:
            X = loc[1][1]
            ok = self.allowed(A, s, A.content(s, ('f', X, 'type')), {self.TY[t] for t in MEMBERS[loc[2]] if t in self.TY})
            k = (A.fstack[-1], node['l'], loc[2])
            self.acc.setdefault(k, []).append((ok, s))
        return None

    def call(self, A, s, node, fn, recv, args):
        # the union members are read when handed to a backend function or stored
        return super().call(A, s, node, fn, recv, args)


class HS(H):
    """additionally remembers which union member was last assigned for *this"""
    def store(self, A, s, loc, val, node):
        pass


def clean(s):
    """no assumption about an unmodelled value was made on this path"""
    def opq(t):
        return isinstance(t, tuple) and (t[:1] and t[0] in ('r', 'mut', 'w', 'join', 'top', 'deep', 'p', 'rd') or any(opq(x) for x in t))
    return not any(opq(k) for k in s.facts)


def lastimpl(A, s, X=T):
    """members of this->implementation written on this path (value differs from the initial one)"""
    out = []
    for l, v in s.mem.items():
        if l[0] == 'f' and l[2] in MEMBERS and l[1] == ('f', X, 'implementation') and v != ('in', l):
            out.append((l[2], v))
    return out


def check(c):
    P = hf.Program([hf.LIB + 'HfstTransducer.cc', hf.LIB + 'HfstApply.cc', hf.LIB + 'HfstInputStream.cc', hf.LIB + 'HfstOutputStream.cc',
                    hf.IMPL + 'ConvertTransducerFormat.cc', hf.IMPL + 'ConvertOlTransducer.cc'])
    TY = types(P)
    INV = {v: k for k, v in TY.items()}
    nacc = nfun = 0
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.l)):
        if f.cls != HT and not any(n.get('k') == 'mem' and short(n.get('n', '')) in MEMBERS for n in hf.walk(f.body)):
            continue
        nfun += 1
        h = H(P, TY)
        a = A(P, h)
        s0 = St()
        if f.cls in STREAMS:
            # the transducer being read or written has the type of the stream (the constructor takes it from the stream, the
            # writer compares them)
            for p in f.params:
                if ishfst(p['t']):
                    s0.mem[('f', ('v', p['id']), 'type')] = a.content(s0, TAG)
        r = a.run(f, s0)
        for (g, line, m), l in sorted(h.acc.items(), key=lambda x: (x[0][0].l, x[0][1], x[0][2])):
            site = '%s(%s): access to the %s object' % (g.q, ', '.join(p['t'].replace('hfst::', '')[-28:] for p in g.params[:2]), m)
            nacc += 1
            bad = [s for ok, s in l if ok is False]
            if bad:
                c.obligation('backend-access', site, False, 'the backend object is read as %s on a path where the type tag is another one' % m,
                             g.file, line, path=bad[0].where())
            elif all(ok for ok, _ in l):
                c.obligation('backend-access', site + ' @%d' % line, True)
            else:
                c.undecide('backend-access', site + ' @%d' % line)
        if f.cls != HT:
            # a transducer filled through a reference parameter
            for p in f.params:
                if not ishfst(p['t']):
                    continue
                pl = ('v', p['id'])
                for s, v in r['ret']:
                    tv = a.simp(s, a.content(s, ('f', pl, 'type')))
                    for m, val in lastimpl(a, s, pl):
                        site = '%s(%s) fills %s' % (f.q, p['t'], m)
                        ok = h.allowed(a, s, tv, {TY[t] for t in MEMBERS[m]})
                        if ok is None:
                            c.undecide('object-matches-tag', site, repr(tv)[:80])
                        else:
                            c.obligation('object-matches-tag', site, ok, 'a %s object is stored while the tag is %s' % (
                                m, INV.get(tv[1]) if isk(tv) else tv), f.file, f.l, path=s.where())
            continue
        # tag at exit, per return statement, for each type at entry
        if f.cls == HT and f.kind not in ('ctor', 'dtor') and not f.st and f.name not in SETTERS and not f.const:
            for t in KINDS:
                if t not in TY:
                    continue
                h2 = H(P, TY)
                h2.track_ret = True
                a2 = A(P, h2)
                s2 = St()
                s2.mem[TAG] = K(TY[t])
                by = {}
                for s, v in a2.run(f, s2)['ret']:
                    by.setdefault(s.tr.get('ret'), []).append((s, a2.simp(s, a2.content(s, TAG))))
                for ln, l in by.items():
                    site = '%s(%s) on %s, return at line %s' % (f.q, ', '.join(p['t'].replace('hfst::', '')[-28:] for p in f.params[:3]), t, ln)
                    if all(isk(tv) and tv[1] != TY[t] for s, tv in l):
                        c.obligation('tag-kept', site, False, 'every path to this return leaves the type tag %s' % INV.get(l[0][1][1]), f.file, ln or f.l,
                                     path=l[0][0].where())
                    elif all(isk(tv) and tv[1] == TY[t] for s, tv in l):
                        c.obligation('tag-kept', site, True)
        # tag at exit
        st0 = ('in', TAG)
        if f.kind == 'dtor' or f.st:
            continue
        sig = '%s(%s)' % (f.q, ', '.join(p['t'].replace('hfst::', '')[-28:] for p in f.params[:3]))
        for s, v in r['ret']:
            tv = a.simp(s, a.content(s, TAG))
            # the tag a constructor / conversion / assignment establishes
            if f.kind == 'ctor' or f.name in SETTERS:
                ps = [('v', p['id']) for p in f.params if p['t'].replace('const ', '').rstrip(' &').endswith('ImplementationType')]
                hs = [('v', p['id']) for p in f.params if ishfst(p['t'])]
                want = None
                if ps:
                    want = a.simp(s, a.content(s, ps[0]))
                elif hs:
                    want = a.simp(s, a.content(s, ('f', hs[0], 'type')))
                if want is not None:
                    if tv == want or want in h.equals(s, tv):
                        c.obligation('tag-set', sig, True)
                    elif isk(tv) and isk(want) or (tv == st0 and f.kind != 'ctor' and isk(want) and want != tv):
                        # unchanged tag is fine if it provably equals the wanted one
                        d = a.decide(s, ('==', tv, want)) if not (isk(tv) and isk(want)) else (tv == want)
                        if d is False or (isk(tv) and isk(want)):
                            c.obligation('tag-set', sig, tv == want, 'the type tag becomes %s where %s was requested' % (
                                INV.get(tv[1]) if isk(tv) else tv, INV.get(want[1])), f.file, f.l, path=s.where())
                        else:
                            c.undecide('tag-set', sig)
                    else:
                        c.undecide('tag-set', sig, '%r %r' % (tv, want))
            else:
                if tv == st0 or (a.simp(s, st0) == tv):
                    c.obligation('tag-kept', sig, True)
                elif isk(tv) and not a.decide(s, mkeq(st0, tv)) and clean(s):
                    c.obligation('tag-kept', sig, False, 'the type tag changes to %s' % INV.get(tv[1]), f.file, f.l, path=s.where())
                else:
                    c.undecide('tag-kept', sig, repr(tv)[:60])
            # the object stored last belongs to the tag
            for m, val in lastimpl(a, s):
                ok = h.allowed(a, s, tv, {TY[t] for t in MEMBERS[m]})
                if ok is False:
                    c.obligation('object-matches-tag', sig + ' ' + m, False, 'a %s object is stored while the tag is %s' % (
                        m, INV.get(tv[1]) if isk(tv) else tv), f.file, f.l, path=s.where())
                elif ok:
                    c.obligation('object-matches-tag', sig + ' ' + m, True)
                else:
                    c.undecide('object-matches-tag', sig + ' ' + m)
    c.cov['functions_analysed'] = nfun
    c.floor('member functions', nfun, 120)
    c.floor('backend object accesses', nacc, 120)


chk.main('C01', check, 'typestate of the (type tag, backend union) pair of HfstTransducer: on every path of every member function, '
         'each read of a backend object happens under the matching tag, each store matches the tag at exit, and only constructors, '
         'assignment and conversion change the tag')
