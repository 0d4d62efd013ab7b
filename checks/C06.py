"""C06: the HFST3 header reads back as it was written."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import hf
import chk
import absint
from absint import K, isk, lin

LIB = 'libhfst/src/'
PM = LIB + 'implementations/optimized-lookup/pmatch.cc'
TOOL = 'tools/src/hfst-optimized-lookup.cc'
T = ('T',)
OUT = 'hfst::HfstOutputStream'
IN = 'hfst::HfstInputStream'


def short(fn):
    return fn.split('(')[0].split('::')[-1] if fn else ''


def has(t, x, d=0):
    """does term t contain x?"""
    if t == x:
        return True
    return isinstance(t, tuple) and d < 60 and any(has(y, x, d + 1) for y in t)


def has_tag(t, tag, d=0):
    return isinstance(t, tuple) and d < 60 and (bool(t) and t[0] == tag or any(has_tag(y, tag, d + 1) for y in t))


class Num:
    """value of a term given values of its leaves (None: not known)"""

    def __init__(self, leaf):
        self.leaf = leaf

    def ev(self, t):
        v = self.leaf(t)
        if v is not None:
            return v
        if isk(t):
            return int(t[1]) if isinstance(t[1], (int, bool)) else None
        if t[0] == '+':
            a = self.ev(t[1])
            return None if a is None or not isinstance(t[2], int) else a + t[2]
        if t[0] == 'cst':
            a = self.ev(t[2])
            if a is None:
                return None
            return {'unsigned char': a & 255, 'unsigned short': a & 65535, 'char': ((a & 255) ^ 128) - 128, 'signed char': ((a & 255) ^ 128) - 128}.get(t[1], a)
        if t[0] == 'op' and len(t) == 4:
            a, b = self.ev(t[2]), self.ev(t[3])
            if a is None or b is None:
                return None
            try:
                return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '<<': lambda: a << b, '>>': lambda: a >> b, '&': lambda: a & b, '|': lambda: a | b,
                        '^': lambda: a ^ b, '%': lambda: a % b, '/': lambda: a // b}[t[1]]()
            except (KeyError, ZeroDivisionError, ValueError):
                return None
        return None


def states(r, kind):
    for x in r[kind]:
        yield (x if isinstance(x, tuple) else (x, None))


class W(absint.Hooks):
    """writer: what is appended to the header and written to the stream"""

    def __init__(self, P):
        self.P = P
        self.rounds = []
        self.sizes = []

    def inline(self, A, fn):
        return (fn.cls or '') == OUT and fn.name not in ('append', 'write') and len(A.stack) < 5 or not fn.cls and fn.file.endswith('HfstOutputStream.cc') and fn.size < 80 and len(A.stack) < 5

    def call(self, A, s, node, fn, recv, args):
        vals, locs = args
        sh = short(fn)
        tok = s.tr.get('tok') or ()
        if fn.startswith(OUT) and sh in ('append', 'write'):
            self.count += 1
        if fn.startswith(OUT) and sh == 'append' and len(vals) == 2:
            s = s.with_tr(tok=tok + (('a', vals[1]),))
            if locs[0] is not None:
                s = A.rawstore(s, locs[0], ('hdr', len(tok)))
            return [(s, ('top',))]
        if fn.startswith(OUT) and sh.startswith('append') and sh != 'append_hfst_header_data':
            if self.P.fns.get(node.get('u')) and self.P.fns[node['u']].size < 4:
                return [(s, ('top',))]
            return None
        if fn.startswith(OUT) and sh == 'write' and vals:
            return [(s.with_tr(tok=tok + (('w', vals[-1], s),)), ('top',))]
        if sh == 'write_transducer':
            return [(s.with_tr(tok=tok + (('t',),)), ('top',))]
        return None

    def back(self, A, n, h, backs):
        a = h.tr.get('tok') or ()
        for b in backs:
            t = (b.tr.get('tok') or ())[len(a):]
            self.rounds.append((A, t, n.get('l'), b))


class R(absint.Hooks):
    """reader: bytes (by position) and strings (by number) taken from the stream"""

    def __init__(self, P, cls, extra=(), hook=None):
        self.P, self.cls, self.extra, self.hook = P, cls, extra, hook
        self.rounds = []
        self.kept = []

    def inline(self, A, fn):
        return len(A.stack) < 5 and ((fn.cls or '') == self.cls and fn.size < 400 or not fn.cls and fn.size < 40) and fn.name not in self.extra

    def store(self, A, s, loc, val, node):
        if loc[0] == 'i' and loc[1] == ('f', T, 'props'):
            self.count += 1
            self.kept.append((A.fstack[-1], loc[2], val, node))

    def get(self, A, s, kind):
        self.count += 1
        tok = s.tr.get('tok') or ()
        v = (kind, len(tok))
        if len(tok) < 400:
            s = s.with_tr(tok=tok + (v,))
        return s, v

    def call(self, A, s, node, fn, recv, args):
        vals, locs = args
        sh = short(fn)
        tok = s.tr.get('tok') or ()
        if self.hook:
            r = self.hook(self, A, s, node, fn, recv, args)
            if r is not None:
                return r
        if fn.startswith(IN):
            if sh == 'stream_get' and not vals:
                s, v = self.get(A, s, 'byte')
                return [(s, v)]
            if sh == 'stream_unget':
                return [(s.with_tr(tok=tok[:-1]), ('top',))]
            if sh == 'stream_peek':
                return [(s, ('peek', len(tok)))]
            if sh == 'stream_eof':
                return [(s, K(False))]
            if sh == 'stream_getstring':
                s, v = self.get(A, s, 'strn')
                return [(s, v)]
        if fn.startswith('std::basic_istream') and sh == 'get' and not vals or sh in ('getc', 'fgetc', '_IO_getc'):
            s, v = self.get(A, s, 'byte')
            return [(s, v)]
        if fn.startswith('std::basic_istream') and sh == 'unget' or sh == 'ungetc':
            return [(s.with_tr(tok=tok[:-1]), ('top',))]
        dst = n = None
        if fn.startswith('std::basic_istream') and sh == 'read' and len(vals) == 2:
            dst, n = vals
            ret = ('top',)
        elif sh == 'fread' and len(vals) == 4:
            dst = vals[0]
            n = A.simp(('op', '*', vals[1], vals[2])) if not (isk(vals[2]) and vals[2][1] == 1) else vals[1]
            ret = vals[2]
        if dst is not None:
            if isk(n) and isinstance(n[1], int) and 0 < n[1] <= 4:
                v = ('le', len(tok), n[1])
                s = s.with_tr(tok=tok + tuple(('byte', len(tok) + i) for i in range(n[1])))
            else:
                v = ('blk', n)
                s = s.with_tr(tok=tok + (v,))
            if dst[0] == 'addr':
                s = A.store(s, dst[1], v, node)
            return [(s, ret)]
        return None

    def back(self, A, n, h, backs):
        for b in backs:
            self.rounds.append((A, h, b, n))


SIZES = (0x9234, 0x12b4)


def leaf_at(base, size, signed):
    """the bytes of the length field are those of size, at position base"""
    def leaf(t):
        if t[0] == 'byte' and t[1] - base in (0, 1):
            v = size >> 8 * (t[1] - base) & 255
            return (v ^ 128) - 128 if signed else v
        if t[0] == 'le' and t[2] == 2 and t[1] == base:
            return size
        return None
    return leaf


def one(c, P, q, **kw):
    fs = [f for f in P.fns.values() if f.q == q and f.body]
    if not fs:
        c.undecide('missing', q)
    return fs


def work(c):
    P = hf.Program([LIB + 'HfstOutputStream.cc', LIB + 'HfstInputStream.cc', LIB + 'HfstTransducer.cc', PM])
    Q = hf.Program([TOOL])
    en = {v: k.split('::')[-1] for k, v in P.enums['hfst::ImplementationType'].items()}
    names = {}

    # ---- writing ---------------------------------------------------------------------
    for f in one(c, P, OUT + '::operator<<'):
        for tv, tn in sorted(en.items()):
            h = W(P)
            A = absint.A(P, h)
            s = A.rawstore(absint.St(), ('f', T, 'type'), K(tv))
            s = A.rawstore(s, ('f', T, 'hfst_format'), K(True))
            try:
                r = A.run(f, s)
            except RuntimeError:
                c.undecide('write', '%s %s' % (f.q, tn))
                continue
            tabs = set()
            for x, _ in states(r, 'ret'):
                tok = x.tr.get('tok') or ()
                ap = [t[1] for t in tok if t[0] == 'a']
                if ('t',) not in tok or not ap:
                    continue
                site = '%s %s' % (f.q, tn)
                st4 = tuple(v[1] if isk(v) else None for v in ap[:4])
                if len(st4) == 4 and None not in st4:
                    tabs.add(st4)
                frame(c, A, f, site, tok)
            for x, _ in states(r, 'throw'):
                tok = x.tr.get('tok') or ()
                limit(c, A, f, '%s %s refused' % (f.q, tn), x, tok)
            for t4 in sorted(tabs):
                c.obligation('type', '%s %s keys' % (f.q, tn), t4[0] == 'version' and t4[2] == 'type' and t4[3] != '', 'the header starts with %s' % ', '.join(t4), f.file, f.l)
                names.setdefault(tn, set()).add((tv, t4[3], t4[1]))
            for A2, t, l, b in h.rounds:
                props(c, A2, f, '%s %s property' % (f.q, tn), t, l, b)
    for tn, v in sorted(names.items()):
        c.obligation('type', 'one name for ' + tn, len({x[1] for x in v}) == 1, '%s is written under several names' % tn, LIB + 'HfstOutputStream.cc', 0)
    allnames = {}
    for tn, v in names.items():
        for x in v:
            allnames.setdefault(x[1], set()).add(tn)
    for n, ts in sorted(allnames.items()):
        c.obligation('type', 'name ' + n, len(ts) == 1, '%s is the name of %s' % (n, ', '.join(sorted(ts))), LIB + 'HfstOutputStream.cc', 0)
    c.floor('types written', len(names), 3)

    # append: the string and one NUL
    for f in one(c, P, OUT + '::append'):
        append_rule(c, P, f)

    # ---- reading: the pairs ------------------------------------------------------------
    for f in one(c, P, IN + '::process_header_data'):
        if not f.params:
            continue
        hd = ('in', ('v', f.params[0]['id']))
        el = ('v', f.params[0]['id'])
        h = R(P, IN)
        A = absint.A(P, h)
        try:
            r = A.run(f, absint.St())
        except RuntimeError:
            c.undecide('read', f.q)
            r = {'ret': [], 'throw': []}
        key = lambda i, m: ('in', ('f', ('i', el, K(i)), m))

        for tn, vs in sorted(names.items()):
            for tv, nm, ver in sorted(vs):
                if tn in ('XFSM_TYPE', 'HFST2_TYPE'):
                    continue
                site = 'header of type %s read' % nm
                s0 = A.setc(absint.St(), ('sz', hd), lo=2)
                for (i, m), v in (((0, 'first'), 'version'), ((0, 'second'), ver), ((1, 'first'), 'type'), ((1, 'second'), nm)):
                    s0 = A.setc(s0, key(i, m), eq=v)
                r = A.run(f, s0)
                for x, _ in states(r, 'ret'):
                    v = A.content(x, ('f', T, 'type'))
                    if isk(v):
                        c.obligation('type', site, v[1] == tv, 'a header written for %s is read as %s' % (tn, en.get(v[1], v[1])), f.file, f.l, path=x.where())
                    elif v == ('in', ('f', T, 'type')):
                        c.obligation('type', site, False, 'the type of a header written for %s is not taken over' % tn, f.file, f.l, path=x.where())
                    else:
                        c.undecide('type', site)
                for x, _ in states(r, 'throw'):
                    if not any(k not in s0.facts and 'sz' not in k for k in x.facts):
                        c.obligation('type', site + ' accepted', False, 'a header written for %s is refused' % tn, f.file, f.l, path=x.where())
        # every pair becomes a property
        nround = 0
        for A2, hs, b, n in h.rounds:
            st = A2.content(b, ('f', T, 'props'))
            was = A2.content(hs, ('f', T, 'props'))
            ok = st != was
            nround += 1
            c.obligation('props', f.q + ' stores', ok, 'a pair of the header does not become a property', f.file, n.get('l'), path=b.where())
        for fn, k, v, nd in h.kept:
            ks, vs = fieldname(k), fieldname(v)
            if ks and vs:
                c.obligation('props', f.q + ' pair', (ks, vs) == ('first', 'second'), 'the %s of a pair is stored under its %s' % (vs, ks), f.file, nd.get('l') if nd else f.l)
        if not h.rounds:
            c.undecide('props', f.q)
        # nothing of the previous transducer is left
    for f in one(c, P, IN + '::read_hfst_header'):
        h = R(P, IN, hook=parts(False))
        A = absint.A(P, h)
        try:
            r = A.run(f, absint.St())
        except RuntimeError:
            c.undecide('fresh', f.q)
            continue
        n = 0
        for x, v in states(r, 'ret'):
            if v == K(False):
                continue
            for m in ('name', 'props'):
                t = A.content(x, ('f', T, m))
                old = has(t, ('in', ('f', T, m)))
                if has_tag(t, 'w'):
                    continue
                n += 1
                c.obligation('fresh', '%s %s' % (f.q, m), not old, 'the %s of the transducer before is still there after a header has been read' % {'name': 'name', 'props': 'properties'}[m],
                             f.file, f.l, path=x.where())
        if not n:
            c.undecide('fresh', f.q)

    # ---- reading: numbers of bytes ----------------------------------------------------------
    counts(c, P)
    data(c, P)
    transfer(c, P)
    for prog, q in ((P, 'hfst_ol::PmatchContainer::parse_hfst3_header'), (Q, 'TransducerHeader::skip_hfst3_header')):
        frames(c, prog, q)
    c.cov['type_names'] = sorted('%s=%s' % (t, x[1]) for t, v in names.items() for x in v)


def frame(c, A, f, site, tok):
    """'HFST' NUL size-low size-high NUL header"""
    w = [t for t in tok if t[0] in 'wt']
    if not w or w[-1] != ('t',):
        c.obligation('frame', site, ('t',) == w[-1] if w else None is not None, 'something is written after the transducer', f.file, f.l)
        return
    w = w[:-1]
    # strings written may be one or several
    flat = []
    for t in w:
        v = t[1]
        if isk(v) and isinstance(v[1], str):
            flat += [(K(ord(ch)), t[2]) for ch in v[1]]
        else:
            flat.append((v, t[2]))
    magic = [v[1] if isk(v) else None for v, _ in flat[:5]]
    c.obligation('frame', site + ' magic', magic == [72, 70, 83, 84, 0], 'the header does not start with HFST and a NUL', f.file, f.l)
    if len(flat) != 9:
        c.undecide('frame', site)
        return
    body = flat[8][0]
    c.obligation('frame', site + ' NUL', flat[7][0] == K(0), 'the length is not followed by a NUL', f.file, f.l)
    ap = [t for t in tok if t[0] == 'a']
    if body[0] not in ('hdr', 'w', 'mut'):
        c.undecide('frame', site)
        return
    size = ('sz', body)
    for i, want in ((5, 0x34), (6, 0x92)):
        v, s = flat[i]

        def leaf(t):
            if t == size:
                return 0x9234
            if t[0] == 'in' and t[1][0] == 'd' and t[1][1][0] == 'padd' and isinstance(t[1][1][2], int) and t[1][1][1][0] == 'addr':
                if A.content(s, t[1][1][1][1]) == size:
                    return 0x9234 >> (8 * t[1][1][2]) & 255
            return None
        x = Num(leaf).ev(v)
        if x is None:
            if has_tag(v, 'sz') and not has(v, size):
                c.obligation('frame', site + ' size', False, 'the length written is not that of the header', f.file, f.l)
            else:
                c.undecide('frame', site + ' size %d' % i)
            continue
        c.obligation('frame', '%s size %d' % (site, i - 5), x & 255 == want, 'byte %d of the length is wrong: %#x of a header of 0x9234 bytes' % (i - 5, x & 255), f.file, f.l)
        g = A.constraint(s, size)
        c.obligation('frame', site + ' limit', g[1] <= 65535 or g[1] == absint.INF and None is not None, 'a header of more than 65535 bytes is written with a length of two bytes', f.file, f.l)


def limit(c, A, f, site, x, tok):
    if not any(t[0] == 'a' for t in tok):
        return
    for k, g in x.facts.items():
        if k[0] == 'sz' and k[1][0] in ('hdr', 'w', 'mut') and g[0] > 0 and not any(t[0] == 't' for t in tok):
            c.obligation('frame', site, g[0] > 65535, 'a header of %s bytes is refused although its length fits in two bytes' % g[0], f.file, f.l, path=x.where())


def props(c, A, f, site, t, l, b):
    """one round of the loop over the properties"""
    ap = [x[1] for x in t if x[0] == 'a']
    if len(t) != len(ap):
        return
    if not ap:
        # skipped: only the ones written above (for which, the rounds that do write tell)
        for k, g in b.facts.items():
            if fieldname(k) == 'first' and g[3] is not None:
                c.obligation('props', site + ' skipped', g[3] in ('type', 'version'), 'property %s is not written' % g[3], f.file, l, path=b.where())
        return
    for k, g in b.facts.items():
        if k[0] == 'sz' and fieldname(k[1]) in ('first', 'second') and k[1] in ap:
            c.obligation('props', site + ' length', g[0] <= (1 if fieldname(k[1]) == 'first' else 0), 'properties whose %s has fewer than %s characters are not written' % (
                {'first': 'name', 'second': 'value'}[fieldname(k[1])], g[0]), f.file, l, path=b.where())
        if fieldname(k) in ('first', 'second') and (g[2] or g[3]):
            bad = sorted(str(x) for x in g[2] if fieldname(k) == 'second' or x not in ('type', 'version'))
            c.obligation('props', site + ' excluded', not bad and g[3] is None, 'properties whose %s is %s %s are not written' % (
                {'first': 'name', 'second': 'value'}[fieldname(k)], ', '.join(repr(x) for x in bad) if bad else 'other than', '' if bad else g[3]), f.file, l, path=b.where())
    fld = [v[1][2] if v[0] == 'in' and v[1][0] == 'f' else None for v in ap]
    if None in fld or len(ap) % 2:
        if len(ap) == 1 and fld != [None]:
            c.obligation('props', site, False, 'a property is not written as a key and a value', f.file, l, path=b.where())
        else:
            c.undecide('props', site)
        return
    ob = {v[1][1] for v in ap}
    c.obligation('props', site, fld == ['first', 'second'] and len(ob) == 1, 'a property is written as %s' % ', '.join(fld), f.file, l, path=b.where())


def fieldname(v):
    return v[1][2] if v[0] == 'in' and v[1][0] == 'f' else None


def append_rule(c, P, f):
    class H(absint.Hooks):
        def __init__(self):
            self.rounds = []

        def inline(self, A, fn):
            return fn.size < 40 and len(A.stack) < 3

        def call(self, A, s, node, fn, recv, args):
            if short(fn) in ('push_back', 'insert', 'append', 'resize', 'emplace_back'):
                self.count += 1
                tok = s.tr.get('tok') or ()
                if len(tok) > 400:
                    return None
                return [(s.with_tr(tok=tok + ((short(fn),) + tuple(args[0]),)), ('top',))]
            return None

        def back(self, A, n, h, backs):
            for b in backs:
                self.rounds.append((b.tr.get('tok') or ())[len(h.tr.get('tok') or ()):])
    h = H()
    A = absint.A(P, h)
    r = A.run(f, absint.St())
    for x, _ in states(r, 'ret'):
        tok = x.tr.get('tok') or ()
        if not tok or tok[-1][0] not in ('push_back', 'emplace_back'):
            if any(t[0] in ('insert', 'resize', 'append') for t in tok):
                c.undecide('frame', f.q)
            else:
                c.obligation('frame', f.q + ' NUL', False, 'a string of the header is not followed by a NUL', f.file, f.l, path=x.where())
            continue
        c.obligation('frame', f.q + ' NUL', tok[-1][1] == K(0) and (len(tok) < 2 or tok[-2][1] != K(0)), 'a string of the header is not followed by one NUL', f.file, f.l, path=x.where())
    for t in h.rounds:
        c.obligation('frame', f.q + ' characters', len(t) == 1 and t[0][1] != K(0), 'not every character is appended once', f.file, f.l)


SUB = {'read_library_header': 50, 'read_library_header_old': 600, 'get_header_size': 7000, 'get_fst_type_old': 80000}


def parts(process):
    """stand-ins for the parts of read_hfst_header"""
    def hook(h, A, s, node, fn, recv, args):
        sh = short(fn)
        if fn.startswith(IN) and sh in SUB and args[1] and args[1][0] is not None:
            s2 = A.store(s, args[1][0], K(SUB[sh]), node)
            s2 = s2.with_tr(sub=(s2.tr.get('sub') or ()) + (sh,))
            if sh.startswith('read_lib'):
                return [(s2, K(True)), (A.store(s, args[1][0], K(0), node), K(False))]
            return [(s2, ('sub', sh))]
        if fn.startswith(IN) and (sh == 'get_header_data' or process and sh == 'process_header_data'):
            if sh == 'get_header_data':
                s = s.with_tr(hd=args[0][0])
            return [(s, ('sub', sh))]
        return None
    return hook


def counts(c, P):
    n = 0
    for nm in ('read_library_header', 'read_library_header_old', 'get_header_size', 'get_fst_type_old'):
        for f in one(c, P, '%s::%s' % (IN, nm)):
            if len(f.params) != 1:
                c.undecide('count', f.q)
                continue
            h = R(P, IN)
            A = absint.A(P, h)
            try:
                r = A.run(f, absint.St())
            except RuntimeError:
                c.undecide('count', f.q)
                continue
            for x, v in states(r, 'ret'):
                got = A.content(x, ('v', f.params[0]['id']))
                tok = x.tr.get('tok') or ()
                if v == K(False) and nm.startswith('read_lib'):
                    continue
                if not isk(got):
                    if nm == 'get_fst_type_old' and isk(v) and v[1] == P.enums['hfst::ImplementationType'].get('hfst::ERROR_TYPE'):
                        continue
                    if got == A.content(absint.St(), ('v', f.params[0]['id'])):
                        c.obligation('count', f.q + ' counted', False, 'the bytes read are not counted', f.file, f.l, path=x.where())
                    else:
                        c.undecide('count', f.q)
                    continue
                n += 1
                if nm == 'get_header_size':
                    c.obligation('count', f.q, got[1] == len(tok) == 3, '%d bytes are read, %d are counted' % (len(tok), got[1]), f.file, f.l, path=x.where())
                    for size in SIZES:
                        z = Num(leaf_at(0, size, True)).ev(v)
                        if z is None:
                            c.undecide('size', f.q)
                        else:
                            z &= 65535
                            c.obligation('size', f.q, z == size, 'length %#x is read as %#x' % (size, z), f.file, f.l, path=x.where())
                    g = A.constraint(x, ('byte', 2))
                    c.obligation('size', f.q + ' NUL', g[0] == g[1] == 0, 'the NUL after the length is not checked', f.file, f.l, path=x.where())
                elif nm == 'get_fst_type_old':
                    if len(tok) != 1:
                        c.undecide('count', f.q)
                        continue
                    name = A.constraint(x, tok[0])[3]
                    if not isinstance(name, str):
                        if isk(v) and v[1] == P.enums['hfst::ImplementationType'].get('hfst::ERROR_TYPE'):
                            continue
                        c.undecide('count', f.q)
                        continue
                    c.obligation('count', '%s %s' % (f.q, name), got[1] == len(name) + 1, '%d bytes are read, %d are counted' % (len(name) + 1, got[1]), f.file, f.l, path=x.where())
                    e = P.enums['hfst::ImplementationType'].get('hfst::' + name)
                    if e is not None and isk(v):
                        c.obligation('type', '%s %s' % (f.q, name), e == v[1], '%s is read as another type' % name, f.file, f.l, path=x.where())
                else:
                    ids = {t[1] for t in x.mem.values() if isk(t) and isinstance(t[1], str)}
                    if len(ids) != 1:
                        c.undecide('count', f.q)
                        continue
                    i = ids.pop()
                    c.obligation('count', f.q, got[1] == len(i) + 1, '%d bytes are read, %d are counted' % (len(i) + 1, got[1]), f.file, f.l, path=x.where())
                    lo = {g[0] for k, g in x.facts.items() if k[0] == 'w' and g[0] == g[0] and isinstance(g[0], int) and g[0] > 1}
                    if len(lo) == 1:
                        m = lo.pop()
                        c.obligation('count', f.q + ' compared', m == len(i) + 1, '%d bytes are compared with %s' % (m, i), f.file, f.l, path=x.where())
            if nm == 'get_header_size':
                for x, v in states(r, 'throw'):
                    g = A.constraint(x, ('byte', 2))
                    c.obligation('size', f.q + ' refused', not (g[0] == g[1] == 0), 'a length followed by a NUL is refused', f.file, f.l, path=x.where())
    c.floor('byte counts', n, 6)
    # the whole header
    for f in one(c, P, IN + '::read_hfst_header'):
        if len(f.params) != 1:
            c.undecide('count', f.q)
            continue
        h = R(P, IN, hook=parts(True))
        A = absint.A(P, h)
        r = A.run(f, absint.St())
        for x, v in states(r, 'ret'):
            sub = x.tr.get('sub') or ()
            if v != K(True):
                continue
            got = Num(lambda t: 900000 if t == ('sub', 'get_header_size') else None).ev(A.content(x, ('v', f.params[0]['id'])))
            want = sum(SUB[q] for q in sub) + (900000 if 'get_header_size' in sub else 0)
            if got is None:
                c.undecide('count', f.q)
                continue
            c.obligation('count', '%s %s' % (f.q, '+'.join(sub)), got == want, 'the number of bytes of the header is not the sum of its parts', f.file, f.l, path=x.where())
            if 'get_header_size' in sub and x.tr.get('hd') is not None:
                c.obligation('count', f.q + ' data', x.tr['hd'] == ('sub', 'get_header_size'), 'another number of bytes than the length is taken as header data', f.file, f.l, path=x.where())


def data(c, P):
    """get_header_data: pairs of strings until the given number of bytes"""
    for f in one(c, P, IN + '::get_header_data'):
        if len(f.params) != 1:
            c.undecide('data', f.q)
            continue
        h = R(P, IN)
        A = absint.A(P, h)
        r = A.run(f, absint.St())
        SZ = 10

        def leaf(t):
            if t[0] == 'sz' and t[1][0] == 'strn':
                return SZ ** (1 + t[1][1] % 2)
            if t[0] in ('w', 'in'):
                return 100000 if t[0] == 'w' else None
            return None
        n = 0
        for A2, hs, b, nd in h.rounds:
            tok = (b.tr.get('tok') or ())[len(hs.tr.get('tok') or ()):]
            if [t[0] for t in tok] != ['strn', 'strn']:
                c.undecide('data', f.q)
                continue
            for l, v in b.mem.items():
                o = hs.mem.get(l)
                if o is None or l[0] != 'v':
                    continue
                if has_tag(v, 'sz'):
                    a, z = Num(leaf).ev(o), Num(leaf).ev(v)
                    if a is None or z is None:
                        c.undecide('data', f.q + ' bytes')
                        continue
                    n += 1
                    c.obligation('data', f.q + ' bytes', z - a == 112, 'the bytes of a pair are not counted right (the lengths of both strings and two NULs)', f.file, nd.get('l'), path=b.where())
                if v[0] == 'push' and v[2][0] == 'pair':
                    n += 1
                    c.obligation('data', f.q + ' pair', v[2][1:] == tuple(tok), 'the strings of a pair are not kept in order', f.file, nd.get('l'), path=b.where())
        # left exactly at the length
        for x, v in states(r, 'ret'):
            hs = ('in', ('v', f.params[0]['id']))
            cnt = {lin(t)[0]: lin(t)[1] for t in x.mem.values() if has_tag(t, 'sz') and has_tag(t, 'w') and not has_tag(t, 'push')}
            lo, hi = -absint.INF, absint.INF
            for k, g in x.facts.items():
                if k[0] not in ('==', '<') or len(k) != 3 or g[0] != g[1]:
                    continue
                (p, pc), (q, qc) = lin(k[1]), lin(k[2])
                if p == hs and q in cnt:
                    sg, d = 1, pc - qc + cnt[q]      # p - q = hs - count + d
                elif q == hs and p in cnt:
                    sg, d = -1, qc - pc + cnt[p]
                else:
                    continue
                # with z = count - hs: a < b etc.
                if k[0] == '==':
                    if g[0]:
                        lo, hi = max(lo, d), min(hi, d)
                elif sg == 1:
                    if g[0]:
                        lo = max(lo, d + 1)          # hs - count + d < 0
                    else:
                        hi = min(hi, d)
                elif g[0]:
                    hi = min(hi, d - 1)              # count - hs - d < 0
                else:
                    lo = max(lo, d)
            if lo == -absint.INF or hi == absint.INF:
                c.undecide('data', f.q + ' end')
            else:
                n += 1
                c.obligation('data', f.q + ' end', lo == hi == 0, 'reading stops between %+d and %+d bytes of the length' % (lo, hi), f.file, f.l, path=x.where())
            if v is not None and v[0] == 'push' and v[2][0] == 'pair':
                tok = x.tr.get('tok') or ()
                c.obligation('data', f.q + ' pair', v[2][1:] == tuple(tok[-2:]), 'the last pair is not returned', f.file, f.l, path=x.where())
            elif v is not None and v[0] == 'w':
                c.obligation('data', f.q + ' pair', False, 'the last pair is not returned', f.file, f.l, path=x.where())
        if not n:
            c.undecide('data', f.q)


def transfer(c, P):
    """read_transducer gives the properties to the transducer; set_property keeps them"""
    for f in one(c, P, IN + '::read_transducer'):
        class H(absint.Hooks):
            def __init__(self):
                self.rounds = []

            def inline(self, A, fn):
                return ((fn.cls or '') == IN or fn.file == f.file and not fn.cls) and fn.size < 60 and len(A.stack) < 3 and not fn.name.startswith('stream')

            def call(self, A, s, node, fn, recv, args):
                if short(fn) in ('set_property', 'set_name'):
                    self.count += 1
                    return [(s.with_tr(sp=(s.tr.get('sp') or ()) + ((short(fn),) + tuple(args[0]),)), ('top',))]
                return None

            def back(self, A, n, h, backs):
                for b in backs:
                    self.rounds.append(((b.tr.get('sp') or ())[len(h.tr.get('sp') or ()):], n, b))
        h = H()
        A = absint.A(P, h)
        E = P.enums['hfst::ImplementationType']
        n = 0
        reach, todo = {}, [f]
        while todo:
            g = todo.pop()
            if g.u in reach:
                continue
            reach[g.u] = g
            todo += [x for call in P.calls(g) for x in P.callees(call.get('u')) if x.file == f.file]
        sets = {w: [g for g in reach.values() if any(short(call.get('fn')) == w for call in P.calls(g))] for w in ('set_name', 'set_property')}
        per = {}
        # nothing that could hand them on is left: no setter is called, and none of the fields of the transducer is touched
        other = any(x.get('k') == 'mem' and x.get('n') == 'hfst::HfstTransducer::props' for g in reach.values() for x in hf.walk(g.body))
        for tn in ('SFST_TYPE', 'TROPICAL_OPENFST_TYPE', 'LOG_OPENFST_TYPE', 'FOMA_TYPE', 'HFST_OL_TYPE', 'HFST_OLW_TYPE'):
            per[tn] = len(h.rounds)
            s = A.rawstore(absint.St(), ('f', T, 'type'), K(E['hfst::' + tn]))
            s = A.rawstore(s, ('f', T, 'hfst_version_2_weighted_transducer'), K(False))
            s = A.rawstore(s, ('f', T, 'has_hfst_header'), K(True))
            try:
                r = A.run(f, s)
            except RuntimeError:
                c.undecide('transfer', '%s %s' % (f.q, tn))
                continue
            for x, v in states(r, 'ret'):
                sp = x.tr.get('sp') or ()
                nm = [t for t in sp if t[0] == 'set_name']
                ok = len(nm) == 1 and len(nm[0]) == 2 and has(nm[0][1], ('f', T, 'name'))
                if not nm:
                    if not other and all(g is f for g in sets['set_name']) and not any(t[0] == 'set_property' and has(t, ('f', T, 'name')) for t in sp):
                        c.obligation('transfer', '%s %s name' % (f.q, tn), False, 'the transducer does not get the name of its header', f.file, f.l, path=x.where())
                    continue
                n += 1
                c.obligation('transfer', '%s %s name' % (f.q, tn), ok, 'the transducer does not get the name of its header', f.file, f.l, path=x.where())
            per[tn] = any(t and t[0][0] == 'set_property' for t, _, _ in h.rounds[per[tn]:])
        m = 0
        if True in per.values() and not other and all(g is f for g in sets['set_property']):
            for tn, got in per.items():
                if isinstance(got, bool):
                    c.obligation('transfer', '%s %s properties' % (f.q, tn), got, 'a transducer of type %s does not get the properties of its header' % tn, f.file, f.l)
        walks = {id(nd) for t, nd, _ in h.rounds if len(t) == 1 and t[0][0] == 'set_property'}
        for t, nd, b in h.rounds:
            if not t:
                if id(nd) in walks:
                    c.obligation('transfer', f.q + ' every property', False, 'a property is not given to the transducer', f.file, nd.get('l'), path=b.where())
                continue
            fld = [v[1][2] if v[0] == 'in' and v[1][0] == 'f' else None for v in t[0][1:]]
            if len(t) == 1 and t[0][0] == 'set_property' and None not in fld:
                m += 1
                c.obligation('transfer', f.q + ' property', fld == ['first', 'second'], 'a property is set from %s' % ', '.join(fld), f.file, nd.get('l'), path=b.where())
        if not m and not sets['set_property'] and not other:
            c.obligation('transfer', f.q + ' property', False, 'the transducer does not get the properties of its header', f.file, f.l)
        elif not m:
            c.undecide('transfer', f.q + ' properties')
    for f in one(c, P, 'hfst::HfstTransducer::set_property'):
        A = absint.A(P, absint.Hooks())
        r = A.run(f, absint.St())
        for x, v in states(r, 'ret'):
            t = A.content(x, ('f', T, 'props'))
            c.obligation('transfer', f.q, t != ('in', ('f', T, 'props')), 'a property is not kept', f.file, f.l, path=x.where())


def frames(c, P, q):
    """readers outside HfstInputStream: HFST NUL, two bytes of length, NUL, as many bytes as that"""
    for f in one(c, P, q):
        seen = []

        def hook(h, A, s, node, fn, recv, args):
            return None
        h = R(P, f.cls or '')
        A = absint.A(P, h)
        try:
            r = A.run(f, absint.St())
        except RuntimeError:
            c.undecide('outside', q)
            continue
        for x, v in states(r, 'ret'):
            tok = x.tr.get('tok') or ()
            blk = [t for t in tok if t[0] == 'blk']
            if not blk:
                continue
            b = blk[0][1]
            i = tok.index(blk[0])
            le = [t for t in (b,) if t[0] == 'le']
            base = le[0][1] if le else None
            if base is None:
                m = [t for t in walkt(b) if t[0] in ('le', 'byte')]
                base = min((t[1] for t in m), default=None)
            if base is None:
                c.undecide('outside', q)
                continue
            for size in SIZES:
                z = Num(leaf_at(base, size, False)).ev(b)
                if z is None:
                    c.undecide('outside', q)
                else:
                    c.obligation('outside', q + ' size', z == size, 'with length %#x, %#x bytes are taken as the header' % (size, z), f.file, f.l, path=x.where())
            g = A.constraint(x, ('byte', base + 2))
            c.obligation('outside', q + ' NUL', g[0] == g[1] == 0, 'the NUL after the length is not checked', f.file, f.l, path=x.where())
            c.obligation('outside', q + ' start', i == base + 3, 'the header data are taken from byte %d after the length' % (i - base), f.file, f.l, path=x.where())


def walkt(t):
    if isinstance(t, tuple):
        yield t if t and isinstance(t[0], str) else ('',)
        for y in t:
            yield from walkt(y)


if __name__ == '__main__':
    chk.main('C06', work, 'HFST3 headers: the type names, properties and lengths written are the ones read')
