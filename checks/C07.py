#!/usr/bin/env python3
"""C07: what is written of an optimized-lookup transducer is read back from the same bytes.

The functions that write and read the binary form are interpreted abstractly.  A read leaves the
term ('rd', offset, size) in the variable it fills and a write leaves the term it wrote in the
trace; the layout of every record is the list of (offset, size, field) its writer leaves, and
every reader has to take each field from the bytes the writer puts it in.
"""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import hf, chk
from absint import A, St, Hooks, K, isk, short, mkeq, lin

T = ('T',)
REL = [hf.OL + 'transducer.cc', hf.OL + 'pmatch.cc', hf.TOOLS + 'hfst-optimized-lookup.cc', hf.TOOLS + 'hfst-proc/transducer.cc', hf.TOOLS + 'hfst-proc/alphabet.cc']
RECS = {'TransitionIndex': ('input_symbol', 'first_transition_index'),
        'TransitionWIndex': ('input_symbol', 'first_transition_index'),
        'Transition': ('input_symbol', 'output_symbol', 'target_index'),
        'TransitionW': ('input_symbol', 'output_symbol', 'target_index', 'transition_weight')}
SZ = {'bool': 1, 'char': 1, 'unsigned char': 1, 'unsigned short': 2, 'short': 2, 'unsigned int': 4, 'int': 4, 'float': 4, 'unsigned long': 8, 'long': 8, 'double': 8}
COUNT = {'A': 'number_of_symbols', 'I': 'size_of_transition_index_table', 'T': 'size_of_transition_target_table'}
WHAT = {'H': 'the header', 'A': 'the alphabet', 'I': 'the index table', 'T': 'the transition table'}


def base(q):
    return q.split('::')[-1]


def isin(t):
    return 'std::basic_istream<' in (t or '') or '_IO_FILE' in (t or '') or 'std::basic_ifstream' in (t or '')


def stream(t):
    return isin(t) or 'std::basic_ostream<' in (t or '')


def cname(f):
    """class of a member function, without the namespace"""
    c = f.cls or ''
    c = re.sub(r'<.*>', '', c)
    return c.split('::')[-1]


def targ(f):
    m = re.search(r'<(.*)>', f.q)
    return m.group(1) if m else ''


def sizeof(t):
    return SZ.get((t or '').replace('const ', '').strip())


def scaled(f):
    """does f count in units other than bytes?"""
    if f.body is None:
        return False
    for n in list(hf.walk(f.body)) + [y for i in (f.inits or []) for y in hf.walk(i['e'])]:
        k = n.get('k')
        if k == 'idx':
            t = (n.get('a') or {}).get('t') or ''
        elif k in ('bin', 'asg', 'un') and (n.get('op') or '').strip('=') in ('+', '-', '++', '--'):
            t = n.get('t') or ''
        else:
            continue
        t = t.replace('const ', '').replace('const', '').strip()
        if t.endswith('*') and t not in ('char *', 'unsigned char *', 'signed char *', 'void *'):
            return True
    return False


def addr(a):
    """(root, offset, strides) of an address"""
    off, st = 0, []
    while True:
        b, c = lin(a)
        if c:
            off, a = off + c, b
        elif a[0] == 'op' and a[1] == '+' and a[3][0] == 'op' and a[3][1] == '*' and isk(a[3][3]):
            st.append(a[3][3][1])
            a = a[2]
        elif a[0] == 'op' and a[1] == '+' and a[3][0] == 'op' and a[3][1] == '*' and isk(a[3][2]):
            st.append(a[3][2][1])
            a = a[2]
        else:
            return a, off, st


def fieldof(v):
    if v[0] == 'in' and v[1][0] == 'f':
        return v[1][2]
    if v[0] == 'fld':
        return v[2] if isinstance(v[2], str) else v[1] if isinstance(v[1], str) else None
    return None


def hdrof(v):
    if v[0] == 'in' and v[1][0] == 'f':
        return v[1][1]
    if v[0] == 'fld':
        return v[1] if isinstance(v[2], str) else v[2]
    return None


class I(A):
    """an interpreter that binds the members of a base class to the object under construction,
    and joins the paths of a helper that differ only in the value of the flag they transport"""

    def ctor_inits(self, f, cur, tl):
        for i in (f.inits or []):
            if i.get('f'):
                nxt = []
                for x in cur:
                    for y, v in self.ev(i['e'], x):
                        nxt.append(self.store(y, ('f', tl, short(i['f'])), v, i['e']))
                cur = nxt
            else:
                nxt = []
                for x in cur:
                    for y, v in self.ev(i['e'], x):
                        r = self.P.recs.get((i['e'].get('t') or '').replace('const ', ''))
                        if i['e']['k'] == 'ctor' and r:
                            for fl in r['fields']:
                                y = self.rawstore(y, ('f', tl, fl['n']), self.fldof(v, fl['n']))
                        nxt.append(y)
                cur = nxt
        return cur

    def inline_fn(self, e, s, f, rl, vals, locs):
        rs = super().inline_fn(e, s, f, rl, vals, locs)
        if not s.tr.get('io') and any(e[1] is None for x, v in rs for e in x.tr.get('io') or ()) and not s.tr.get('w'):
            # a prefix whose length is not fixed: the layout starts after it
            out, keys = [], set()
            for x, v in rs:
                y = x.with_tr(io=())
                if y.key() not in keys:
                    keys.add(y.key())
                    out.append((y, v))
            return out
        return self.merge(rs)

    def cands(self, s):
        io = s.tr.get('io') or ()
        out = []
        if io:
            out.append(('rd', io[-1][0], io[-1][1]))
        for x in s.facts:
            y = x[1] if x[0] in ('==', 'not') else x
            if isinstance(y, tuple) and (y[0] == 'in' or y[0] == 'rd' or y[0] == 'fld'):
                out.append(y)
        return out

    def truth(self, s, t):
        if t[0] == 'rd':
            d = self.decide(s, mkeq(t, K(1)))
            if d is None:
                d = self.decide(s, mkeq(t, K(0)))
                d = None if d is None else not d
            return d
        return self.decide(s, t)

    def unify(self, ss, vs):
        """one term for a value that is 1 on the paths where a flag is set and 0 on the others"""
        if all(v == vs[0] for v in vs):
            return vs[0]
        if not all(isk(v) and v[1] in (0, 1, True, False) for v in vs):
            return None
        for t in self.cands(ss[0]):
            ds = [self.truth(s, t) for s in ss]
            if None in ds:
                continue
            if all(d == bool(v[1]) for d, v in zip(ds, vs)):
                return t
            if all(d != bool(v[1]) for d, v in zip(ds, vs)):
                return ('not', t)
        return None

    def merge(self, rs):
        if len(rs) < 2 or len(rs) > 6:
            return rs
        ss = [s for s, v in rs]
        io = [s.tr.get('io') or () for s in ss]
        if any(len(x) != len(io[0]) for x in io) or not io[0]:
            return rs
        if any({k: v for k, v in s.tr.items() if k != 'io'} != {k: v for k, v in ss[0].tr.items() if k != 'io'} for s in ss):
            return rs
        out = ss[0].copy()
        nio = []
        for es in zip(*io):
            if any(e[:2] != es[0][:2] for e in es):
                return rs
            v = self.unify(ss, [e[2] for e in es])
            if v is None:
                return rs
            nio.append(es[0][:2] + (v,))
        for l in set().union(*[s.mem for s in ss]):
            vs = [s.mem.get(l) for s in ss]
            if all(v == vs[0] for v in vs):
                continue
            if any(v is None for v in vs):
                return rs
            v = self.unify(ss, vs)
            if v is None:
                return rs
            out.mem[l] = v
        v = self.unify(ss, [v for s, v in rs])
        if v is None:
            return rs
        for k in list(out.facts):
            if any(s.facts.get(k) != out.facts[k] for s in ss):
                del out.facts[k]
        out.tr['io'] = tuple(nio)
        out._key = out._mt = None
        return [(out, v)]


class H(Hooks):
    def __init__(self, P, lay=None, roots=()):
        self.P, self.lay, self.roots = P, lay or {}, roots
        self.notes = []      # (rule, fn, line, ok or None, text)
        self.loads = {}      # address -> type read
        self.bufs = {}       # root of a buffer -> (bytes per record, line, fn)
        self.steps = {}
        self.seqs = None
        self.whole = ()

    def note(self, A, node, rule, ok, msg=''):
        self.notes.append((rule, A.fstack[-1], node.get('l') if node else 0, ok, msg))

    def inline(self, A, fn):
        if self.seqs is not None:
            return (fn.u in self.seqs and fn.size < 300 or fn.size <= (60 if cname(fn) == 'TransducerHeader' and not fn.params or fn.name == 'probe_flag' else 8)) and len(A.stack) < 6
        return fn.size < 300 and len(A.stack) < 6

    # ---- the bytes ------------------------------------------------------------------
    def pos(self, s):
        io = s.tr.get('io') or ()
        if not io:
            return 0
        o, n = io[-1][:2]
        return o + n if isinstance(o, int) and isinstance(n, int) else None

    def push(self, s, n, v):
        io = s.tr.get('io') or ()
        if len(io) > 60:
            return s
        return s.with_tr(io=io + ((self.pos(s), n, v),))

    def loc_t(self, A, l):
        """declared type of a field, where the class of the object is one of the records"""
        if l[0] == 'f':
            for c in self.P.recs:
                if base(c) in RECS or base(c) == 'TransducerHeader':
                    for f in self.P.recs[c]['fields']:
                        if f['n'] == l[2]:
                            return f['t']
        return None

    def rd(self, A, s, node, dst, n):
        if not isk(n):
            a = dst
            if n[0] == 'op' and n[1] == '*':
                k = n[3] if isk(n[3]) else n[2]
                if isk(k):
                    self.bufs.setdefault(addr(a)[0], (k[1], node.get('l'), A.fstack[-1]))
            return self.push(s, None, ('top',))
        off = self.pos(s)
        if dst[0] == 'addr':
            t = self.loc_t(A, dst[1])
            if sizeof(t) is not None and t != 'bool':
                self.note(A, node, 'size', sizeof(t) == n[1], '%d bytes are read into member %s, which has %d' % (n[1], dst[1][2], sizeof(t) or 0))
            v = ('rd', off, n[1]) if off is not None else ('top',)
            s = A.store(s, dst[1], v, node)
            return self.push(s, n[1], v)
        return self.push(s, n[1], ('top',))

    def call(self, A, s, node, fn, recv, args):
        vals, locs = args
        sh = short(fn)
        if fn.startswith('std::basic_istream') and sh == 'read' and len(vals) == 2:
            return [(self.rd(A, s, node, vals[0], vals[1]), ('top',))]
        if fn == 'fread' and len(vals) == 4:
            a, b = vals[1], vals[2]
            if b == K(1):
                s = self.rd(A, s, node, vals[0], a)
            elif a == K(1):
                s = self.rd(A, s, node, vals[0], b)
            elif isk(a) and isk(b):
                s = self.rd(A, s, node, vals[0], K(a[1] * b[1]))
            else:
                s = self.rd(A, s, node, vals[0], ('op', '*', b, a))
            return [A.opaque(s, node)]
        if fn.startswith('std::basic_ostream') and sh == 'write' and len(vals) == 2:
            if vals[0][0] == 'addr' and isk(vals[1]):
                l = vals[0][1]
                t = self.loc_t(A, l)
                if sizeof(t) is not None:
                    self.note(A, node, 'size', sizeof(t) == vals[1][1], '%d bytes are written of member %s, which has %d' % (vals[1][1], l[2] if l[0] == 'f' else '?', sizeof(t) or 0))
                return [(self.push(s, vals[1][1], A.content(s, l)), ('top',))]
            return [(self.push(s, None, ('top',)), ('top',))]
        if (fn.startswith('std::basic_ostream') or fn.startswith('std::operator<<')) and (sh in ('put', 'operator<<')) and s.tr.get('w'):
            return [(self.push(s, None, ('text', node.get('l'))), ('top',))]
        return self.event(A, s, node, fn, recv, vals, locs)

    def load(self, A, s, loc, node):
        if loc[0] == 'd' and node is not None:
            self.loads[loc[1]] = node.get('t')
        return None

    # ---- the order of the parts -----------------------------------------------------
    def kind(self, f):
        """the parts a function reads or writes, and the argument holding their number"""
        ps = [p['t'] for p in f.params]
        if not ps or not stream(ps[0]):
            return None
        c = cname(f)
        rd = isin(ps[0])
        if f.kind == 'ctor' and rd:
            if c == 'TransducerHeader':
                return [('H', None)]
            if c.endswith('Alphabet'):
                return [('A', 1)]
            if c == 'TransducerTable':
                return [('I' if 'Index' in targ(f) else 'T', 1)]
            if c == 'PmatchTransducer':
                return [('I', 1), ('T', 2)]
            if c.startswith('IndexTableReader'):
                return [('I', 1)]
            if c.startswith('TransitionTableReader'):
                return [('T', 1)]
            return None
        if rd and f.name == 'fake_read_alphabet':
            return [('A', 1)]
        if f.name == 'write' and not rd:
            if c == 'TransducerHeader':
                return [('H', None)]
            if c == 'TransducerAlphabet':
                return [('A', None)]
            if c in RECS:
                return [('I' if 'Index' in c else 'T', 'loop')]
        return None

    def event(self, A, s, node, fn, recv, vals, locs):
        f = self.P.fns.get(node.get('u'))
        if not s.tr.get('seq'):
            return None
        if short(fn) in ('get_index', 'get_transition') and len(vals) == 1 and isk(vals[0]):
            p = 'I' if short(fn) == 'get_index' else 'T'
            self.note(A, node, 'first', vals[0] == K(0), '%s is written from entry %s' % (WHAT[p], vals[0][1]))
        if f is None:
            return self.skip(A, s, node, f, fn, vals)
        k = self.kind(f)
        if k is None:
            if f.u in self.whole:
                self.note(A, node, 'order', s.tr.get('last') in (None, 'T', 'any'), 'a transducer is read after %s' % WHAT.get(s.tr.get('last'), 'nothing'))
                s2, v = A.opaque(s.with_tr(last='T'), node)
                return [(s2, v)]
            return self.skip(A, s, node, f, fn, vals)
        if f.kind == 'ctor' and cname(f) == 'TransducerHeader':
            v = ('ctor', 'header', node['nid'])
            self.note(A, node, 'order', True)
            return [(s.with_tr(last='H', hdr=v), v)]
        for p, a in k:
            last = s.tr.get('last')
            want = {'H': (None, 'T'), 'A': ('H',), 'I': ('A', 'I') if a == 'loop' else ('A',), 'T': ('I', 'T', 'A') if a == 'loop' else ('I',)}[p]
            if last == 'any':
                ok = True
            else:
                ok = last in want
            self.note(A, node, 'order', ok, '%s is %s after %s' % (WHAT[p], 'read' if isin(f.params[0]['t']) else 'written', WHAT.get(last, 'nothing')))
            if last == 'I' and p == 'T' or p == 'I' or p == 'T':
                w = A.simp(s, ('fld', s.tr['hdr'], 'weighted')) if 'hdr' in s.tr else None
                cls = targ(f) if cname(f) == 'TransducerTable' else cname(f)
                if w is not None and cname(f) != 'PmatchTransducer':
                    d = None
                    for t in (w, A.fldof(s.tr['hdr'], 'weighted')):
                        d = A.decide(s, t) if d is None else d
                    isw = 'W' in base(cls)
                    if d is not None:
                        self.note(A, node, 'weighted', d == isw, 'a%s transducer is read with %s' % (' weighted' if d else 'n unweighted', base(cls)))
            if isinstance(a, int) and len(vals) > a:
                n = fieldof(vals[a])
                fields = set(COUNT.values()) | {'number_of_input_symbols', 'number_of_states', 'number_of_transitions'}
                if n in fields:
                    self.note(A, node, 'count', n == COUNT[p], '%s is read with the number in %s, not the one in %s' % (WHAT[p], n, COUNT[p]))
                else:
                    b = vals[a]
                    bb, c = lin(b)
                    if c and fieldof(bb) in fields:
                        self.note(A, node, 'count', False, '%s is read with %s%+d entries' % (WHAT[p], fieldof(bb), c))
                    else:
                        self.note(A, node, 'count', None, '')
            if a == 'loop':
                self.count += 1
                self.loop(A, s, node, p, f, vals)
            s = s.with_tr(last=p)
        if f.kind == 'ctor':
            s2, v = A.opaque(s, node)
            return [(s2, v)]
        return [(s, ('top',))]

    def skip(self, A, s, node, f, fn, vals):
        """calls that touch neither a stream nor a header do not matter to the order of the parts"""
        if f is not None and self.inline(A, f) or 'TransducerHeader' in fn:
            return None
        if short(fn) in ('operator<', 'operator!=', 'operator==', 'operator!', 'operator bool', 'operator->', 'operator*'):
            return None
        if short(fn).startswith('size_t_to') and len(vals) == 1:
            return [(s, vals[0])]
        s2, v = A.opaque(s, node)
        return [(s2, v)]

    def loop(self, A, s, node, p, f, vals):
        hd = None
        ok = None
        fields = {'size_of_transition_index_table', 'size_of_transition_target_table', 'number_of_symbols', 'number_of_input_symbols', 'number_of_states', 'number_of_transitions'}
        msg = ''
        for x, v in s.facts.items():
            if x[0] == '<' and v[0] == v[1] == 1:
                b, c = lin(x[2])
                if fieldof(b) in fields:
                    i, ic = lin(x[1])
                    if isk(x[1]):
                        i, ic = ('0',), 0
                    good = fieldof(b) == COUNT[p] and c - ic == 0
                    if fieldof(b) == COUNT[p]:
                        ok = good if ok is None else ok and good
                        if not good:
                            msg = '%s is written up to %s%+d' % (WHAT[p], COUNT[p], c - ic)
                    elif ok is None:
                        ok, msg = False, '%s is written with the number of entries in %s' % (WHAT[p], fieldof(b))
        self.note(A, node, 'count', ok, msg)
        if len(vals) > 1:
            n = fieldof(vals[1])
            self.note(A, node, 'weighted', None if n is None else n == 'weighted', 'the records are written as the header field %s says' % n)

    def back(self, A, n, h, backs):
        for b in backs:
            for l, v in b.mem.items():
                if l[0] != 'v':
                    continue
                o = h.mem.get(l)
                if o is None:
                    continue
                if isk(o) and isk(v):
                    if isinstance(o[1], int) and isinstance(v[1], int) and o != v:
                        self.steps.setdefault(A.fstack[-1].u, {}).setdefault(l, set()).add((v[1] - o[1], n.get('l')))
                    continue
                r0, c0, _ = addr(o)
                r1, c1, _ = addr(v)
                if r0 == r1 and c1 != c0:
                    self.steps.setdefault(A.fstack[-1].u, {}).setdefault(l, set()).add((c1 - c0, n.get('l')))
        return None


def main(c):
    P = hf.Program(REL)
    fns = [f for f in P.fns.values() if f.body is not None]
    seen = 0
    states = 0

    def run(f, hooks, s):
        nonlocal states
        a = I(P, hooks)
        try:
            r = a.run(f, s)
        except RecursionError:
            c.undecide('interpretation', '%s:%d' % (f.file, f.l))
            return None, a
        states += len(r['ret'])
        return r, a

    lay = {}
    done = {}

    def report(h):
        for rule, f, l, ok, msg in h.notes:
            k = (rule, f.file, f.q, l)
            o = done.get(k)
            if o is None or o[0] is not False and ok is False or o[0] is None and ok is not None:
                done[k] = (ok, msg, f)

    # ---- the writers ----------------------------------------------------------------
    hw = [f for f in fns if f.name == 'write' and cname(f) == 'TransducerHeader']
    hdr = None
    for f in hw:
        h = H(P)
        r, a = run(f, h, St().with_tr(w=1))
        report(h)
        if r is None:
            continue
        for s, v in r['ret']:
            L = []
            for o, n, t in s.tr.get('io') or ():
                fl = fieldof(t)
                if fl is None and isk(t) and t[1] in (0, 1):
                    for cand in a.cands(s):
                        d = a.truth(s, cand)
                        if d is not None and d == bool(t[1]) and fieldof(cand):
                            fl = fieldof(cand)
                if t[0] == 'not' and fieldof(t[1]):
                    c.obligation('flag', '%s %s' % (f.q, fieldof(t[1])), False, 'the flag %s is written as its negation' % fieldof(t[1]), f.file, f.l)
                L.append((o, n, fl))
            if hdr is None:
                hdr = (L, f)
            else:
                c.obligation('paths', f.q, [x for x in L] == hdr[0], 'the header is not written in one way', f.file, f.l)
    if hdr is None or any(x[0] is None or x[2] is None for x in hdr[0]):
        c.undecide('header', 'writer')
        W = {}
    else:
        W = {fl: (o, n) for o, n, fl in hdr[0]}
        f = hdr[1]
        r = P.recs.get(f.cls)
        for fd in (r or {'fields': []})['fields']:
            c.obligation('written', '%s %s' % (f.q, fd['n']), fd['n'] in W, 'member %s of the header is not written' % fd['n'], f.file, f.l)
        c.obligation('once', f.q, len(W) == len(hdr[0]), 'a member of the header is written twice', f.file, f.l)
    seen += len(W)
    c.cov['header_layout'] = ['%s:%d+%d' % (k, v[0], v[1]) for k, v in W.items()]

    for cls in RECS:
        w = [f for f in fns if f.name == 'write' and cname(f) == cls]
        if not w and cls == 'TransitionWIndex':
            w = [f for f in fns if f.name == 'write' and cname(f) == 'TransitionIndex']
        if not w:
            c.undecide('record', cls)
            continue
        f = w[0]
        isw = 'W' in cls
        s = St().with_tr(w=1)
        if len(f.params) > 1:
            s = s.copy()
            s.mem[('v', f.params[1]['id'])] = K(1 if isw else 0)
        h = H(P)
        r, a = run(f, h, s)
        report(h)
        if r is None:
            continue
        best = None
        for s, v in r['ret']:
            L = tuple((o, n, fieldof(t)) for o, n, t in s.tr.get('io') or ())
            if best is None or sum(x[2] is not None for x in L) > sum(x[2] is not None for x in best):
                best = L
        if best is None or any(x[0] is None or x[2] is None for x in best):
            c.undecide('record', cls)
            continue
        for s, v in r['ret']:
            for i, (o, n, t) in enumerate(s.tr.get('io') or ()):
                site = '%s %s %d' % (f.q, cls, i)
                if i >= len(best) or best[i][:2] != (o, n):
                    c.obligation('record', site, False, 'the record is not written in one way', f.file, f.l, path=s.where())
                elif fieldof(t) is None:
                    ok = False
                    if isk(t) and not isw:
                        d = a.decide(s, mkeq(('in', ('f', T, 'input_symbol')), K(65535)))
                        ok = d is True and t == K(1) and best[i][2] == 'first_transition_index'
                    c.obligation('record', site, ok, 'member %s is replaced when it is written' % best[i][2], f.file, f.l, path=s.where())
                else:
                    c.obligation('record', site, fieldof(t) == best[i][2], 'members are not written in one order', f.file, f.l, path=s.where())
        lay[cls] = {fl: (o, n) for o, n, fl in best}
        for fl in RECS[cls]:
            c.obligation('written', '%s %s' % (cls, fl), fl in lay[cls], 'member %s of %s is not written' % (fl, cls), f.file, f.l)
        lay[cls][None] = best[-1][0] + best[-1][1]
        seen += len(best)
    c.cov['record_layout'] = {k: {str(x): y for x, y in v.items()} for k, v in lay.items()}
    # a weighted and an unweighted record share their prefix in memory only; sizes are compared per class

    # ---- readers: header ------------------------------------------------------------
    for f in fns:
        if f.kind == 'ctor' and cname(f) == 'TransducerHeader' and f.params and isin(f.params[0]['t']) and W:
            h = H(P)
            r, a = run(f, h, St())
            report(h)
            if r is None:
                continue
            for s, v in r['ret']:
                for fl, (o, n) in W.items():
                    x = a.content(s, ('f', T, fl))
                    neg = x[0] == 'not'
                    if neg:
                        x = x[1]
                    site = '%s %s %s' % (f.q, ','.join(p['t'] for p in f.params), fl)
                    if x[0] == 'rd':
                        off0 = min([e[0] for e in s.tr.get('io') or () if isinstance(e[0], int)] or [0])
                        c.obligation('header', site, not neg and (x[1], x[2]) == (o, n),
                                     'member %s is written at bytes %d..%d of the header and read from bytes %d..%d%s' % (fl, o, o + n - 1, x[1], x[1] + x[2] - 1, ', negated' if neg else ''), f.file, f.l)
                    elif isk(x):
                        t = ('rd', o, n)
                        d = a.truth(s, t)
                        if d is None:
                            c.obligation('header', site, False, 'member %s is written in the header and not read from it' % fl, f.file, f.l)
                        else:
                            c.obligation('header', site, d == bool(x[1]), 'member %s is read wrongly' % fl, f.file, f.l)
                    elif x[0] == 'in':
                        c.obligation('header', site, False, 'member %s is written in the header and not read from it' % fl, f.file, f.l)
                    else:
                        c.undecide('header', site)
                end = s.tr.get('io') or ()
                if end and isinstance(end[-1][0], int) and isinstance(end[-1][1], int):
                    tot = max(o + n for o, n in W.values())
                    c.obligation('length', f.q + ' ' + ','.join(p['t'] for p in f.params), end[-1][0] + end[-1][1] == tot, '%d bytes of header are written and %d are read' % (tot, end[-1][0] + end[-1][1]), f.file, f.l)
            seen += 1

    # ---- readers: records -----------------------------------------------------------
    def fields_of(a, h, f, cls, get, site, line):
        if cls not in lay:
            return
        for fl in RECS[cls]:
            v = get(fl)
            o, n = lay[cls].get(fl, (None, None))
            if o is None:
                continue
            if v[0] == 'rd':
                c.obligation('record', '%s %s' % (site, fl), (v[1], v[2]) == (o, n), 'member %s of %s is written at bytes %d..%d of the record and read from bytes %d..%d' % (fl, cls, o, o + n - 1, v[1], v[1] + v[2] - 1), f.file, line)
            elif v[0] == 'in' and v[1][0] == 'd':
                r, off, st = addr(v[1][1])
                t = h.loads.get(v[1][1])
                m = sizeof(t)
                if m is None or scaled(f) or any(scaled(P.fns[i['e']['u']]) for i in f.inits or [] if i['e'].get('u') in P.fns):
                    c.undecide('record', '%s %s' % (site, fl))
                    continue
                c.obligation('record', '%s %s' % (site, fl), (off, m) == (o, n), 'member %s of %s is written at bytes %d..%d of the record and read from bytes %d..%d' % (fl, cls, o, o + n - 1, off, off + m - 1), f.file, line)
                for k in st:
                    c.obligation('stride', '%s %s' % (site, fl), k == lay[cls][None], 'records of %d bytes are read every %d bytes' % (lay[cls][None], k), f.file, line)
            else:
                c.undecide('record', '%s %s' % (site, fl))

    for f in fns:
        cls = cname(f)
        if f.kind == 'ctor' and cls in RECS and len(f.params) == 1 and (isin(f.params[0]['t']) or f.params[0]['t'].replace('const ', '') == 'char *'):
            h = H(P)
            r, a = run(f, h, St())
            report(h)
            if r is None:
                continue
            for s, v in r['ret']:
                fields_of(a, h, f, cls, lambda n: a.content(s, ('f', T, n)), f.q + ' ' + ','.join(p['t'] for p in f.params), f.l)
            seen += 1

    # tables: functions that build records from a buffer
    class Build(H):
        def __init__(self, *x):
            super().__init__(*x)
            self.got = []

        def call(self, A, s, node, fn, recv, args):
            f = self.P.fns.get(node.get('u'))
            if f is not None and f.kind == 'ctor' and cname(f) in RECS:
                vals, locs = args
                self.count += 1
                if len(vals) == 1 and f.params[0]['t'].replace('const ', '') == 'char *':
                    r, off, st = addr(vals[0])
                    self.got.append((cname(f), 'ptr', r, off, st, node.get('l'), A.fstack[-1], None, f))
                    return [A.opaque(s, node)]
                if len(vals) >= 2 and not node.get('cp'):
                    self.got.append((cname(f), 'val', None, 0, [], node.get('l'), A.fstack[-1], tuple(vals), f))
                    return [A.opaque(s, node)]
            return super().call(A, s, node, fn, recv, args)

    nb = 0
    for f in fns:
        has = False
        for n in hf.walk(f.body):
            if n.get('k') in ('ctor', 'new', 'call'):
                g = P.fns.get(n.get('u'))
                if g is not None and g.kind == 'ctor' and cname(g) in RECS and not n.get('cp') and n.get('args'):
                    has = True
        ptr = f.kind == 'ctor' and any(isin(p['t']) for p in f.params) or f.name.startswith('get_') and f.name.endswith('_vector')
        if not has or not ptr or cname(f) in RECS:
            if not (f.kind == 'ctor' and f.params and isin(f.params[0]['t']) and re.match('(Index|Transition)TableReader', cname(f))):
                continue
        h = Build(P)
        r, a = run(f, h, St())
        report(h)
        if r is None:
            continue
        nb += 1
        order = [x for b in h.bufs for x in {g[0] for g in h.got if g[2] == b}]
        if len(order) > 1:
            ok = ['Index' in x for x in order] == sorted(['Index' in x for x in order], reverse=True)
            c.obligation('order', f.q, ok, 'the transition table is read before the index table', f.file, f.l)
        for cls, how, root, off, st, line, g, vals, ct in h.got:
            site = g.q + ' ' + ','.join(p['t'] for p in g.params)
            if cls not in lay:
                continue
            tot = lay[cls][None]
            if how == 'ptr':
                for k in st:
                    c.obligation('stride', site + ' ' + cls, k == tot, 'records of %d bytes are read every %d bytes' % (tot, k), g.file, line)
                if root in h.bufs:
                    k, l, _ = h.bufs[root]
                    c.obligation('table', site + ' ' + cls, k == tot, '%s has records of %d bytes and %d are read for each' % (cls, tot, k), g.file, l)
                    c.obligation('table', site + ' ' + cls + ' start', off % tot == 0, 'the first record of %s is taken from byte %d of the table' % (cls, off), g.file, line)
                if root[0] == 'w':
                    steps = h.steps.get(g.u, {}).get(root[-1], set())
                    if steps:
                        c.obligation('stride', site + ' ' + cls + ' step', {x for x, l in steps} == {tot}, 'records of %d bytes are read every %s bytes' % (tot, sorted(x for x, l in steps)), g.file, line)
                    else:
                        c.undecide('stride', site + ' ' + cls)
            else:
                if len(vals) < len(RECS[cls]) or not any(v[0] == 'in' and v[1][0] == 'd' for v in vals):
                    continue
                # which member an argument reaches
                hb = H(P)
                rb, ab = run(ct, hb, St())
                if rb is None:
                    continue
                m = {}
                sb = rb['ret'][0][0]
                for fl in RECS[cls]:
                    x = ab.content(sb, ('f', T, fl))
                    for i, p in enumerate(ct.params):
                        if x == ('in', ('v', p['id'])):
                            m[fl] = i
                roots = set()
                for v in vals:
                    if v[0] == 'in' and v[1][0] == 'd':
                        roots.add(addr(v[1][1])[0])
                fields_of(a, h, g, cls, lambda n: vals[m[n]] if n in m and m[n] < len(vals) else ('top',), site, line)
                for ro in roots:
                    if ro in h.bufs:
                        k, l, _ = h.bufs[ro]
                        c.obligation('table', site + ' ' + cls, k == tot, '%s has records of %d bytes and %d are read for each' % (cls, tot, k), g.file, l)
    c.cov['table_readers'] = nb

    # ---- the alphabet: every symbol followed by a NUL, read up to the NUL, once per symbol ----
    class Alpha(H):
        def __init__(self, P):
            super().__init__(P)
            self.rounds = []
            self.first = None

        def call(self, A, s, node, fn, recv, args):
            vals, locs = args
            sh = short(fn)
            tok = None
            isw = fn.startswith('std::basic_ostream') or fn.startswith('std::operator<<')
            if isw and sh == 'put' and len(vals) == 1:
                tok = ('N',) if vals[0] == K(0) else ('C', vals[0])
            elif isw and sh == 'operator<<' and vals:
                v = vals[-1]
                tok = ('N',) if v == K(0) else ('S', v)
            elif isw and sh == 'write':
                tok = ('?',)
            elif fn.startswith('std::getline'):
                tok = ('G', vals[2] if len(vals) > 2 else K(10))
            elif sh == 'get_next_symbol':
                tok = ('G', K(0))
            elif sh == 'push_back' and recv is not None and recv == ('f', T, 'symbol_table'):
                tok = ('P',)
            if tok is None:
                return None
            self.count += 1
            if tok[0] == 'G' and not s.tr.get('tok') and len(self.f.params) > 1:
                # what is known of the number when the first symbol is read
                if self.first is None:
                    self.first = max(0, A.constraint(s, ('in', ('v', self.f.params[1]['id'])))[0])
            s = s.with_tr(tok=(s.tr.get('tok') or ()) + (tok,))
            if tok[0] == 'G' and locs and len(locs) > 1 and locs[1] is not None:
                s2, v = A.opaque(s, node)
                return [(A.store(s2, locs[1], ('line', node['nid']), node), ('top',))]
            return [(s, vals[0] if isw and sh == 'operator<<' and len(vals) == 2 else ('top',))]

        def inline(self, A, fn):
            return fn.size < 30 and len(A.stack) < 3

        def back(self, A, n, h, backs):
            a = h.tr.get('tok') or ()
            for b in backs:
                t = (b.tr.get('tok') or ())[len(a):]
                self.rounds.append((t, n.get('l'), b, dict(b.facts)))

    for f in fns:
        c2 = cname(f)
        wr = f.name == 'write' and c2 == 'TransducerAlphabet'
        rdr = f.kind == 'ctor' and c2.endswith('TransducerAlphabet') and f.params and isin(f.params[0]['t']) and not any(i.get('e', {}).get('u') in P.fns and cname(P.fns[i['e']['u']]).endswith('Alphabet') and not i.get('f') for i in f.inits or [])
        if not (wr or rdr or f.name == 'fake_read_alphabet'):
            continue
        h = Alpha(P)
        h.f = f
        r, a = run(f, h, St())
        if r is None:
            continue
        if not h.rounds:
            c.undecide('alphabet', f.q)
            continue
        for t, l, b, facts in h.rounds:
            site = '%s %s %s' % (f.q, ','.join(p['t'] for p in f.params), 'write' if wr else 'read')
            ks = [x[0] for x in t]
            if '?' in ks:
                c.undecide('alphabet', site)
            elif wr:
                if 'C' in ks:
                    c.undecide('alphabet', site)
                else:
                    c.obligation('alphabet', site, ks == ['S', 'N'], 'a symbol is written as %s instead of the symbol and one NUL' % ' '.join(ks), f.file, l, path=b.where())
            else:
                g = [x for x in t if x[0] == 'G']
                c.obligation('alphabet', site, len(g) == 1 and g[0][1] == K(0), 'a symbol is not read up to its NUL once for each number', f.file, l, path=b.where())
                if rdr and 'File' not in f.u and '_IO_FILE' not in f.params[0]['t']:
                    c.obligation('alphabet', site + ' store', ks.count('P') == 1, 'a symbol is not stored exactly once', f.file, l, path=b.where())
        if not wr:
            site = '%s %s count' % (f.q, ','.join(p['t'] for p in f.params))
            if h.first in (0, 1, 2):
                # a first symbol is read exactly when there is at least one: not for a number of 0, not only from 2 on
                c.obligation('alphabet', site, h.first == 1, 'the alphabet is not read with the number of symbols it was written with', f.file, f.l)
            else:
                c.undecide('alphabet', site)

    # ---- order, counts --------------------------------------------------------------
    ns = 0
    hk = H(P)
    nodes = {f.u: [n for n in list(hf.walk(f.body)) + [y for i in (f.inits or []) for y in hf.walk(i['e'])] if n.get('u') in P.fns] for f in fns}
    reach = {f.u for f in fns if any(hk.kind(P.fns[n['u']]) for n in nodes[f.u])}
    more = True
    while more:
        more = False
        for f in fns:
            if f.u not in reach and any(stream(p['t']) for p in f.params) and any(n['u'] in reach for n in nodes[f.u]):
                reach.add(f.u)
                more = True
    whole = {f.u for f in fns if any(k[0] == 'H' for n in nodes[f.u] for k in hk.kind(P.fns[n['u']]) or ())}
    more = True
    while more:
        more = False
        for f in fns:
            if f.u in reach and f.u not in whole and any(n['u'] in whole for n in nodes[f.u]):
                whole.add(f.u)
                more = True
    for f in fns:
        h = H(P)
        h.seqs, h.whole = reach, whole
        kinds = set()
        for n in nodes[f.u]:
            k = h.kind(P.fns[n['u']])
            if k:
                kinds |= {x for x, _ in k}
        if not kinds or h.kind(f) or f.size > 700:
            continue
        s = St().with_tr(seq=1, last=None if 'H' in kinds else 'any')
        if kinds == {'H'}:
            continue
        r, a = run(f, h, s)
        ns += 1
        report(h)
        if r is None:
            continue
        for l, st in h.steps.get(f.u, {}).items() if f.name == 'write' else ():
            for d, line in st:
                c.obligation('step', '%s %s' % (f.q, line), d == 1, 'entries are written in steps of %d' % d, f.file, line)
    c.cov['sequences'] = ns

    nf = 0
    for f in fns:
        if f.name != 'probe_flag' or len(f.params) != 1:
            continue
        en = next((v for k, v in P.enums.items() if f.params[0]['t'].replace('const ', '').strip() == k), None)
        if not en:
            continue
        names = {k.split('::')[-1].lower().rstrip('_'): v for k, v in en.items()}
        ans = {}
        for k, v in en.items():
            a = A(P, Hooks())
            s0 = a.rawstore(St(), ('v', f.params[0]['id']), K(v))
            got = {t for _, t in a.run(f, s0)['ret']}
            g = got.pop() if len(got) == 1 else None
            m = g[1][2] if g and g[0] == 'in' and isinstance(g[1], tuple) and g[1][0] == 'f' else None
            if m is None:
                if g is not None and isk(g):
                    c.obligation('flag', '%s %s' % (f.q, k), False, 'the flag %s is always %s' % (k, g[1]), f.file, f.l)
                else:
                    c.undecide('flag', '%s %s' % (f.q, k))
                continue
            other = names.get(m.lower().strip('_'), v)
            nf += 1
            c.obligation('flag', '%s %s' % (f.q, k), ans.setdefault(m, k) == k and other == v, 'the flag %s is answered with the member %s' % (k, m), f.file, f.l)
    c.cov['flags'] = nf

    for (rule, file, q, l), (ok, msg, f) in sorted(done.items(), key=str):
        site = '%s %s:%s' % (rule, q, l)
        if ok is None:
            c.undecide(rule, site)
        else:
            c.obligation(rule, site, ok, msg, file, l or f.l)
    c.cov['functions_interpreted'] = seen + nb + ns
    c.cov['paths'] = states
    c.floor('layouts', seen, 8)


if __name__ == '__main__':
    chk.main('C07', main, 'binary layout of optimized-lookup transducers: each member is read from the bytes it is written to')
