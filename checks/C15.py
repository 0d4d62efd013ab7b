#!/usr/bin/env python3
"""C15: writes into buffers of known size fit, whatever the lengths of the strings written."""
import sys, os, glob, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import hf, chk, cfg, roles
from absint import short
from cfg import strip, lit, ref
from roles import key

SIZES = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'bool': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'float': 4,
         'long': 8, 'unsigned long': 8, 'double': 8, 'long long': 8, 'unsigned long long': 8}
ALLOC = {'malloc': 0, 'hfst_malloc': 0, 'alloca': 0, '__builtin_alloca': 0}


class Lin(dict):
    """linear form over atoms (numbers >= 0) with a constant under 1"""
    def add(self, o, k=1):
        r = Lin(self)
        for a, c in o.items():
            r[a] = r.get(a, 0) + k * c
            if r[a] == 0:
                del r[a]
        return r

    def mul(self, k):
        return Lin({a: c * k for a, c in self.items()}) if k else Lin()

    def const(self):
        return all(a == 1 for a in self)


def num(n):
    return Lin({1: n} if n else {})


class B:
    def __init__(self, X, fn):
        self.X, self.fn = X, fn
        self.defs = X.R.fdefs(fn)
        self.types = {key(p['id']): p['t'] for p in fn.params}
        self.params = {key(p['id']) for p in fn.params}
        self.moved = set()
        self.ndefs = {}
        self.C = None
        self.bufcap = {}        # the string in an allocated buffer is shorter than the buffer
        for n in hf.walk(fn.body):
            if n.get('k') == 'vardecl':
                self.types[key(n['id'])] = n.get('t') or ''
                if n.get('init') is not None:
                    self.ndefs[key(n['id'])] = self.ndefs.get(key(n['id']), 0) + 1
            if n.get('k') == 'un' and ('++' in str(n.get('op')) or '--' in str(n.get('op'))) and ref(n.get('e')):
                self.moved.add(key(ref(n['e'])['id']))
            if n.get('k') == 'asg' and ref(n['a']):
                i = key(ref(n['a'])['id'])
                if n.get('op') != '=':
                    self.moved.add(i)
                else:
                    self.ndefs[i] = self.ndefs.get(i, 0) + 1

    def cfg(self):
        if self.C is None:
            self.C = cfg.CFG(self.fn)
        return self.C

    def single(self, i):
        """the one definition of a local variable"""
        if i in self.moved or i in self.params or self.ndefs.get(i, 0) != 1:
            return None
        ds = [d for d in self.defs.get(i, [])]
        return ds[0] if len(ds) == 1 else None

    def starts(self, v, loop=None):
        """the values a variable is set to, beside being advanced"""
        out = []
        skip = {id(x) for x in hf.walk(loop)} if loop else ()
        for n in hf.walk(self.fn.body):
            if id(n) in skip:
                continue
            if n.get('k') == 'vardecl' and key(n['id']) == v and n.get('init') is not None:
                out.append(n['init'])
            elif n.get('k') == 'asg' and n.get('op') == '=' and same_ref(n['a'], v):
                if not (strip(n['b']).get('k') == 'bin' and same_ref(strip(n['b']).get('a'), v)):
                    out.append(n['b'])
        return out

    # ---- keys of strings
    def K(self, e, d=0):
        e = strip(e)
        if not isinstance(e, dict) or d > 12:
            return None
        k = e.get('k')
        if k == 'ref':
            i = key(e['id']) if e.get('id') is not None else e.get('n')
            if e.get('dk') == 'var':
                s = self.single(i)
                if s is not None and strip(s).get('k') in ('ref', 'mem', 'call', 'ctor') and ('*' in self.types.get(i, '') or '&' in self.types.get(i, '')):
                    r = self.K(s, d + 1)
                    if r is not None and not is_alloc(s):
                        return r
            return ('v', i)
        if k == 'this':
            return ('this',)
        if k == 'mem':
            b = self.K(e['b'], d + 1) if e.get('b') is not None else ('this',)
            return None if b is None else ('m', e.get('m'), b)
        if k == 'idx':
            a, b = self.K(e['a'], d + 1), self.K(e['b'], d + 1)
            return None if a is None or b is None else ('i', a, b)
        if k in ('int', 'chr'):
            return ('n', e.get('v'))
        if k == 'str':
            return ('s', e.get('v'))
        if k == 'un' and e.get('op') in ('*', '&'):
            r = self.K(e['e'], d + 1)
            return None if r is None else ('u', e['op'], r)
        if k == 'bin' and e.get('op') in ('+', '-'):
            a, b = self.K(e['a'], d + 1), self.K(e['b'], d + 1)
            return None if a is None or b is None else ('b', e['op'], a, b)
        if k == 'ctor':
            if len([a for a in e.get('args', []) if a.get('k') != 'defarg']) == 1:
                return self.K(e['args'][0], d + 1)
            return None
        if k == 'call':
            s = short(e.get('fn', ''))
            if s in ('c_str', 'data'):
                return self.K(e['o'], d + 1)
            if s in ('operator->', 'operator*') or e.get('op') in ('->', '*'):
                r = self.K(e.get('o') or e['args'][0], d + 1)
                return None if r is None else ('u', '*', r)
            parts = [self.K(a, d + 1) for a in ([e['o']] if e.get('o') is not None else []) + e.get('args', []) if a.get('k') != 'defarg']
            return None if None in parts else ('c', e.get('fn'), tuple(parts))
        return None

    # ---- linear forms
    def length(self, e):
        """length of a string expression"""
        x = strip(e)
        while isinstance(x, dict) and x.get('k') == 'ctor' and len([a for a in x.get('args', []) if a.get('k') != 'defarg']) == 1:
            x = strip(x['args'][0])
        if x.get('k') == 'str':
            return num(slen(x['v']))
        if x.get('k') == 'call' and short(x.get('fn', '')) in ('c_str', 'data') and x.get('o') is not None:
            return self.length(x['o'])
        if x.get('k') == 'cond':
            a, b = self.length(x['a']), self.length(x['b'])
            if a is not None and b is not None and a.const() and b.const():
                return num(max(a.get(1, 0), b.get(1, 0)))
            return None
        if x.get('k') == 'ref' and x.get('dk') == 'var':
            i = key(x['id'])
            s = self.single(i)
            if s is not None and strip(s).get('k') == 'str':
                return num(slen(strip(s)['v']))
            t = self.types.get(i, '')
            m = re.fullmatch(r'(?:static )?(?:const )?char\[(\d+)\]', t)
            if m:
                return Lin({('arr', i, int(m.group(1)) - 1): 1})
            if s is not None and is_alloc(s):
                c = self.alloc(s)
                if c is not None:
                    self.bufcap[('buf', i)] = c.add(num(1), -1)
                    return Lin({('buf', i): 1})
        if x.get('k') == 'bin' and x.get('op') == '+':
            o = self.lin(x['b'])
            l = self.length(x['a'])
            return None if l is None or o is None or not o.const() else l.add(o, -1)
        k = self.K(x)
        return None if k is None else Lin({('len', k): 1})

    def lin(self, e, d=0):
        e = strip(e)
        if not isinstance(e, dict) or d > 12:
            return None
        v = lit(e)
        if v is not None and not isinstance(v, float):
            return num(int(v))
        k = e.get('k')
        if k == 'sizeof':
            return num(e['v']) if isinstance(e.get('v'), int) else None
        if k == 'chr':
            return num(e['v'])
        if k == 'bin' and e.get('op') in ('+', '-', '*'):
            a, b = self.lin(e['a'], d + 1), self.lin(e['b'], d + 1)
            if a is None or b is None:
                if e['op'] == '-':
                    kk = self.K(e)
                    return Lin({('expr', kk): 1}) if kk else None
                return None
            if e['op'] == '+':
                return a.add(b)
            if e['op'] == '-':
                if '*' in str(strip(e['a']).get('t', '')):
                    kk = self.K(e)
                    return Lin({('expr', kk): 1}) if kk else None
                return a.add(b, -1)
            if a.const():
                return b.mul(a.get(1, 0))
            if b.const():
                return a.mul(b.get(1, 0))
            return None
        if k == 'call':
            s = short(e.get('fn', ''))
            if s == 'strlen':
                return self.length(e['args'][0])
            if s in ('size', 'length') and e.get('o') is not None and not e.get('args'):
                if 'basic_string' in e.get('fn', ''):
                    return self.length(e['o'])
                kk = self.K(e['o'])
                return Lin({('cnt', kk): 1}) if kk else None
            if s in ('size_t_to_int', 'size_t_to_uint', 'size_t_to_ushort') and e.get('args'):
                return self.lin(e['args'][0], d + 1)
            kk = self.K(e)
            return Lin({('expr', kk): 1}) if kk else None
        if k == 'ref':
            i = key(e['id']) if e.get('id') is not None else e.get('n')
            s = self.single(i)
            if s is not None:
                r = self.lin(s, d + 1)
                if r is not None:
                    return r
            return Lin({('var', i): 1})
        if k in ('mem', 'un', 'idx'):
            kk = self.K(e)
            return Lin({('expr', kk): 1}) if kk else None
        return None

    # ---- capacity of a destination in bytes
    def cap(self, e, d=0):
        e = strip(e)
        if not isinstance(e, dict) or d > 8:
            return None
        k = e.get('k')
        if k == 'bin' and e.get('op') == '+':
            c, o = self.cap(e['a'], d + 1), self.lin(e['b'])
            sz = elem_size(strip(e['a']).get('t', ''))
            return None if c is None or o is None or sz is None else c.add(o, -sz)
        if k == 'un' and e.get('op') == '&':
            x = strip(e['e'])
            if x.get('k') == 'idx':
                c, o = self.cap(x['a'], d + 1), self.lin(x['b'])
                sz = SIZES.get(str(x.get('t', '')).replace('const ', ''))
                return None if c is None or o is None or sz is None else c.add(o, -sz)
            if x.get('k') == 'call' and x.get('op') == '[]' and x.get('o') is not None and ref(x['o']):
                return self.vec_cap(ref(x['o']), x['args'][0])
            if x.get('k') in ('ref', 'mem'):
                sz = SIZES.get(str(x.get('t', '')).replace('const ', ''))
                return num(sz) if sz else None
            return None
        if k == 'call' and short(e.get('fn', '')) == 'data' and ref(e.get('o')):
            return self.vec_cap(ref(e['o']), None)
        if k in ('ref', 'mem'):
            t = self.types.get(key(e['id']), '') if k == 'ref' and e.get('id') is not None else ''
            t = t or str(e.get('t', ''))
            m = re.fullmatch(r'(?:static |const )*(.*?)\s*((?:\[\d+\])+)', t)
            if m:
                sz = SIZES.get(m.group(1).strip())
                ns = [int(x) for x in re.findall(r'\d+', m.group(2))]
                if sz is None:
                    sz = 8 if m.group(1).strip().endswith('*') else None
                if sz is None or len(ns) != 1:
                    return None
                return num(sz * ns[0])
            if k == 'ref' and e.get('dk') == 'var':
                i = key(e['id'])
                if i in self.moved:
                    return None
                ds = [x for x in self.defs.get(i, []) if lit(x) != 0 and not same_ref(x, i)]
                cs = []
                for x in ds:
                    c = self.alloc(x)
                    if c is None:
                        x2 = strip(x)
                        if x2.get('k') == 'call' and short(x2.get('fn', '')) in ('memcpy', 'strcpy', 'strncpy', 'strcat') and same_ref(x2['args'][0], i):
                            continue
                        c = self.cap(x, d + 1) if x2.get('k') in ('ref', 'bin', 'un') else None
                    cs.append(c)
                if len(cs) == 1:
                    return cs[0]
            return None
        return self.alloc(e)

    def vec_cap(self, r, off):
        i = key(r['id'])
        t = self.types.get(i, '')
        m = re.match(r'(?:const )?std::vector<(.*?)(?:,.*)?>$', t)
        if not m or SIZES.get(m.group(1)) is None:
            return None
        for n in hf.walk(self.fn.body):
            if n.get('k') == 'call' and ref(n.get('o')) and key(ref(n['o'])['id']) == i and short(n.get('fn', '')) in ('resize', 'push_back', 'assign', 'clear', 'insert', 'swap'):
                return None
        ds = self.defs.get(i, [])
        if len(ds) == 1 and strip(ds[0]).get('k') == 'ctor':
            a = [x for x in strip(ds[0]).get('args', []) if x.get('k') != 'defarg']
            if a:
                n = self.lin(a[0])
                o = self.lin(off) if off is not None else num(0)
                return None if n is None or o is None else n.add(o, -1).mul(SIZES[m.group(1)])
        return None

    def alloc(self, e):
        e = strip(e)
        if e.get('k') == 'call':
            s = short(e.get('fn', ''))
            if s in ALLOC:
                return self.lin(e['args'][ALLOC[s]])
            if s in ('calloc', 'hfst_calloc'):
                a, b = self.lin(e['args'][0]), self.lin(e['args'][1])
                if a is None or b is None:
                    return None
                return b.mul(a.get(1, 0)) if a.const() else a.mul(b.get(1, 0)) if b.const() else None
        if e.get('k') == 'new' and e.get('size') is not None:
            n = self.lin(e['size'])
            sz = elem_size(str(e.get('t', '')))
            return None if n is None or sz is None else n.mul(sz)
        return None

    # ---- bounds on atoms that hold at a node
    def bounds(self, call):
        C = self.cfg()
        t = C.of(call)
        up, lo = {}, {}
        if t is None:
            return up, lo, True
        vague = False
        for n in C.nodes:
            if n.kind != 'cond' or n.ast is None:
                continue
            c = strip(n.ast)
            if c.get('k') != 'bin' or c.get('op') not in ('<', '<=', '>', '>=', '==', '!='):
                continue
            a, b = self.lin(c['a']), self.lin(c['b'])
            if a is None or b is None:
                continue
            d = a.add(b, -1)
            ats = [x for x in d if x != 1]
            if not ats:
                continue
            for lab in (True, False):
                if C.before(t, None, lambda m, l: m is n and l == lab) is not None:
                    continue
                op = c['op'] if lab else {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}[c['op']]
                if len(ats) == 1:
                    at, k, cst = ats[0], d[ats[0]], d.get(1, 0)
                    if k < 0:
                        k, cst = -k, -cst
                        op = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(op, op)
                    # k*at + cst op 0
                    if op == '<':
                        up[at] = min(up.get(at, 1 << 60), (-cst - 1) // k)
                    elif op in ('<=', '=='):
                        up[at] = min(up.get(at, 1 << 60), (-cst) // k)
                    if op == '>':
                        lo[at] = max(lo.get(at, 0), (-cst) // k + 1)
                    elif op in ('>=', '=='):
                        lo[at] = max(lo.get(at, 0), -(cst // k))
                else:
                    for x in ats:
                        up.setdefault(x, None)
                        vague = True
        return up, lo, vague


def is_alloc(e):
    e = strip(e)
    return e.get('k') == 'new' or e.get('k') == 'call' and short(e.get('fn', '')) in ('malloc', 'calloc', 'realloc', 'hfst_malloc', 'hfst_calloc', 'strdup', 'hfst_strdup')


def same_ref(e, i):
    r = ref(e)
    return r is not None and r.get('id') is not None and key(r['id']) == i


def slen(v):
    return len(v.encode('utf-8', 'surrogateescape')) if isinstance(v, str) else len(v)


def elem_size(t):
    t = str(t).replace('const ', '').strip()
    if t.endswith('*'):
        t = t[:-1].strip()
        return 8 if t.endswith('*') else SIZES.get(t)
    m = re.fullmatch(r'(.*?)\s*\[\d+\]', t)
    if m:
        return SIZES.get(m.group(1).strip(), 8 if m.group(1).strip().endswith('*') else None)
    return None


FMT = re.compile(r'%([-+ #0]*)(\d+|\*)?(?:\.(\d+|\*))?(hh|h|ll|l|z|j|t|L)?([diouxXeEfFgGcsp%n])')
INT_MAX_DIGITS = {'': 11, 'h': 6, 'hh': 4, 'l': 20, 'll': 20, 'z': 20, 'j': 20, 't': 20}


def fmt_need(b, fmt, args):
    """(least, most) bytes without the terminating zero; most None when unbounded or unknown"""
    lo, hi = Lin(), Lin()
    pos, ai = 0, 0
    for m in FMT.finditer(fmt):
        n = slen(fmt[pos:m.start()])
        lo, hi = lo.add(num(n)), hi.add(num(n)) if hi is not None else None
        pos = m.end()
        fl, w, p, ln, cv = m.groups()
        if cv == '%':
            lo = lo.add(num(1))
            hi = hi.add(num(1)) if hi is not None else None
            continue
        if w == '*' or p == '*':
            return None
        if ai >= len(args):
            return None
        a = args[ai]
        ai += 1
        w = int(w) if w else 0
        if cv == 's':
            l = b.length(a)
            if p is not None:
                l2 = num(int(p))
                if l is not None and l.const():
                    l2 = num(min(int(p), l.get(1, 0)))
                    lo = lo.add(num(max(w, l2.get(1, 0))))
                else:
                    lo = lo.add(num(max(w, int(p))))
                hi = hi.add(num(max(w, l2.get(1, 0)))) if hi is not None else None
            elif l is None:
                lo, hi = lo.add(num(w)), None
            elif l.const():
                lo = lo.add(num(max(w, l.get(1, 0))))
                hi = hi.add(num(max(w, l.get(1, 0)))) if hi is not None else None
            else:
                lo = lo.add(l)                       # attained when the string is longer than the width
                hi = hi.add(l).add(num(w)) if hi is not None else None
        elif cv == 'c':
            lo, hi = lo.add(num(max(1, w))), hi.add(num(max(1, w))) if hi is not None else None
        elif cv in 'diouxX':
            mx = INT_MAX_DIGITS[ln or ''] + 2
            lo, hi = lo.add(num(max(1, w))), hi.add(num(max(mx, w))) if hi is not None else None
        elif cv in 'fF':
            fl32 = str(strip(a).get('t', '')).replace('const ', '') == 'float'
            mx = (41 if fl32 else 311) + (int(p) if p else 6)
            lo, hi = lo.add(num(max(3, w))), hi.add(num(max(mx, w))) if hi is not None else None
        elif cv in 'eEgG':
            mx = 16 + (int(p) if p else 6)
            lo, hi = lo.add(num(max(1, w))), hi.add(num(max(mx, w))) if hi is not None else None
        else:
            lo, hi = lo.add(num(1)), hi.add(num(20)) if hi is not None else None
    n = slen(fmt[pos:])
    return lo.add(num(n)), hi.add(num(n)) if hi is not None else None


def decide(b, call, cap, lo, hi):
    """True fits, False may not fit, None unknown"""
    up = None
    for a in list(hi or ()):
        if a in b.bufcap and hi[a] > 0:
            hi = hi.add(b.bufcap[a].mul(hi[a])).add(Lin({a: hi[a]}), -1)
    if hi is not None:
        d = cap.add(hi, -1)
        if d.get(1, 0) >= 0 and all(c > 0 for a, c in d.items() if a != 1):
            return True
        up, low, vague = b.bounds(call)
        v = d.get(1, 0)
        for a, c in d.items():
            if a == 1:
                continue
            if a[0] == 'arr' and c < 0:
                v += c * a[2]
            elif c < 0:
                if up.get(a) is None:
                    v = None
                    break
                v += c * up[a]
            else:
                v += c * low.get(a, 0)
        if v is not None and v >= 0:
            return True
    d = cap.add(lo, -1)
    neg = [a for a, c in d.items() if a != 1 and c < 0]
    if not neg and d.get(1, 0) >= 0:
        return None
    up, low, vague = b.bounds(call)
    if vague and any(a in up and up[a] is None for a in d):
        return None
    if any(a[0] in ('expr', 'var', 'cnt', 'buf') for a in d if a != 1 and (d[a] < 0)):
        return None
    v = d.get(1, 0)
    for a, c in d.items():
        if a == 1:
            continue
        if a[0] == 'arr':
            v += c * a[2] if c < 0 else 0
        elif c < 0:
            if a in up and up[a] is not None:
                v += c * up[a]
            else:
                return False                     # a string of any length
        else:
            if a[0] in ('expr', 'var', 'cnt') and a not in low:
                return None
            v += c * low.get(a, 0)
    return False if v < 0 else None


def show(l):
    out = []
    for a, c in sorted(l.items(), key=lambda x: str(x[0])):
        if a == 1:
            out.append(str(c))
            continue
        k = a[1]
        nm = 'length' if a[0] in ('len', 'arr') else 'n'
        out.append(('%d*' % c if c != 1 else '') + nm)
    return ' + '.join(out) or '0'


class Ctx:
    def __init__(self, P):
        self.P, self.R = P, roles.Roles(P)


SCAN = re.compile(r'%(\*)?(\d+)?(hh|h|ll|l|z|j|t|L)?(\[\^?\]?[^\]]*\]|[diouxXeEfFgGcspn%])')


def check_fn(c, X, fn, seen):
    b = None
    cls = fn.q.split('::')
    where = fn.q.replace('hfst::', '').replace('implementations::', '')
    nth = {}
    for n in hf.walk(fn.body):
        k = n.get('k')
        s = short(n.get('fn', '')) if k == 'call' else None
        kind = None
        if s in ('sprintf', 'strcpy', 'strcat', 'memcpy', 'memmove', 'strncpy', 'snprintf', 'fgets', 'fread', 'sscanf', 'fscanf', 'hfst_fread'):
            kind = s
        elif s in ('read', 'getline', 'get') and 'istream' in n.get('fn', '') and len([a for a in n.get('args', []) if a.get('k') != 'defarg']) == 2:
            kind = 'istream::' + s
        elif k == 'asg' and strip(n['a']).get('k') == 'idx':
            kind = 'store'
        if kind is None:
            continue
        if (fn.file, n.get('l'), kind, n.get('nid')) in seen:
            continue
        b = b or B(X, fn)
        A = n.get('args', [])
        site = '%s: %s' % (where, kind)
        if kind == 'store':
            t = strip(n['a'])
            cap = b.cap(t['a'])
            i = b.lin(t['b'])
            sz = SIZES.get(str(t.get('t', '')).replace('const ', ''), 8 if str(t.get('t', '')).endswith('*') else None)
            if cap is None or i is None or sz is None:
                continue
            need = i.add(num(1)).mul(sz)
            r = decide(b, n, cap, need, need)
            nm = cfg.ref(t['a'])
            site = '%s: %s[]' % (where, nm.get('n') if nm else '?')
            judge(c, 'fits', site, r, 'element %s of a buffer of %s bytes is set' % (show(i), show(cap)), fn, n)
            continue
        if kind in ('sscanf', 'fscanf'):
            f = strip(A[1])
            if f.get('k') != 'str':
                c.undecide('scan-width', site)
                continue
            src = b.length(A[0]) if kind == 'sscanf' else None
            ai = 2
            for m in SCAN.finditer(f['v']):
                star, w, ln, cv = m.groups()
                if cv == '%' or star:
                    continue
                if ai >= len(A):
                    break
                dst = A[ai]
                ai += 1
                if cv[0] not in 's[c':
                    continue
                cap = b.cap(dst)
                if cap is None:
                    c.undecide('scan-width', site)
                    continue
                nm = (ref(dst) or {}).get('n', '?')
                st = '%s: %s into %s' % (where, kind, nm)
                if w:
                    need = int(w) + (cv[0] != 'c')
                    r = decide(b, n, cap, num(need), num(need))
                    judge(c, 'scan-width', st, r, 'up to %d bytes are read into a buffer of %s' % (need, show(cap)), fn, n)
                    continue
                if cv[0] == 'c':
                    continue
                if src is None:
                    r = False if kind == 'fscanf' else None
                else:
                    need = src.add(num(1))
                    r = decide(b, n, cap, need, need)
                    if r is None and any(a[0] == 'len' for a in src if a != 1) and cap.const():
                        r = None
                judge(c, 'scan-width', st, r, 'a word of any length is read into a buffer of %s bytes' % show(cap), fn, n)
            continue
        dst = A[0]
        if kind in ('fread', 'hfst_fread') and len(A) < 3:
            continue
        cap = b.cap(dst)
        if cap is None:
            continue
        lo = hi = None
        if kind == 'sprintf':
            f = strip(A[1])
            if f.get('k') != 'str':
                c.undecide('fits', site)
                continue
            r = fmt_need(b, f['v'], A[2:])
            if r is None:
                c.undecide('fits', site)
                continue
            lo, hi = r[0].add(num(1)), r[1].add(num(1)) if r[1] is not None else None
            site += ' "%s"' % f['v'][:40].replace('\n', '\\n')
        elif kind == 'strcpy':
            l = b.length(A[1])
            if l is None:
                continue
            lo = hi = l.add(num(1))
        elif kind == 'strcat':
            l = b.length(A[1])
            if l is None:
                continue
            lo, hi = l.add(num(1)), None
        elif kind in ('memcpy', 'memmove', 'strncpy'):
            lo = hi = b.lin(A[2])
        elif kind in ('snprintf', 'fgets', 'istream::read', 'istream::getline', 'istream::get'):
            lo = hi = b.lin(A[1])
        elif kind in ('fread', 'hfst_fread'):
            x, y = b.lin(A[1]), b.lin(A[2])
            if x is not None and y is not None and (x.const() or y.const()):
                lo = hi = y.mul(x.get(1, 0)) if x.const() else x.mul(y.get(1, 0))
        if lo is None:
            c.undecide('fits', site)
            continue
        r = decide(b, n, cap, lo, hi)
        judge(c, 'fits', site, r, '%s bytes may be written into a buffer of %s' % (show(lo), show(cap)), fn, n)
        # reading beyond the end of the source: as much as the length test before it allows
        if kind in ('memcpy', 'memmove') and hi is not None and hi.const():
            src = strip(A[1])
            off = num(0)
            if src.get('k') == 'bin' and src.get('op') == '+':
                off = b.lin(src['b'])
                src = strip(src['a'])
            kk = b.K(src)
            if kk is not None and off is not None and off.const():
                up, low, vague = b.bounds(n)
                if ('len', kk) in low:
                    have, want = low[('len', kk)], off.get(1, 0) + hi.get(1, 0)
                    c.obligation('source-length', '%s: %s' % (where, kind), have + 1 >= want,
                                 '%d bytes of a string are read when only %d are known to be there' % (want, have), fn.file, n.get('l'))


# ------------------------------------------------------------------ loops that copy a string character by character
class GiveUp(Exception):
    pass


class Copy:
    """index or pointer i into a buffer advanced in a loop while a pointer c walks a string to its end: the most i can
    have advanced for each character, over every path through the body, against the size of the buffer"""
    def __init__(self, b, loop, buf, i, cap, es):
        self.b, self.C = b, b.cfg()
        self.loose = False
        self.loop, self.buf, self.i, self.cap, self.es = loop, buf, i, cap, es
        self.head = next((n for n in self.C.nodes if n.kind == 'head' and n.stmt is loop), None) if self.C else None

    def steps(self, ast, v):
        """how much variable v is advanced by evaluating ast; GiveUp when it is changed otherwise"""
        d = 0
        if not isinstance(ast, dict) or v is None:
            return 0
        for x in cfg.walk_expr(ast):
            k = x.get('k')
            if k == 'un' and ('++' in str(x.get('op')) or '--' in str(x.get('op'))) and same_ref(x.get('e'), v):
                if '--' in x['op']:
                    raise GiveUp
                d += 1
            elif k == 'asg' and same_ref(x['a'], v):
                n = None
                if x.get('op') == '+=':
                    n = lit(x['b'])
                elif x.get('op') == '=':
                    y = strip(x['b'])
                    if y.get('k') == 'bin' and y.get('op') == '+' and same_ref(y['a'], v):
                        n = lit(y['b'])
                        m = strip(y['b'])
                        if m.get('k') == 'call' and short(m.get('fn', '')) == 'min' and any(
                                strip(a).get('k') == 'call' and short(strip(a).get('fn', '')) == 'strlen' and same_ref(strip(a)['args'][0], v) for a in m['args']):
                            n = 1                # at least this much, and never beyond the end
                            self.loose = True
                    if y.get('k') == 'ref' and y.get('id') is not None:
                        for z in hf.walk(self.b.fn.body):      # the end of a number read after v
                            if z.get('k') == 'call' and short(z.get('fn', '')) in ('strtol', 'strtoul', 'strtod') and strip(z['args'][1]).get('k') == 'un' \
                               and same_ref(strip(z['args'][1])['e'], key(y['id'])):
                                m = strip(z['args'][0])
                                n = lit(m['b']) if m.get('k') == 'bin' and m.get('op') == '+' and same_ref(m['a'], v) else 0 if same_ref(m, v) else None
                                self.loose = True
                if not isinstance(n, int) or n < 0:
                    raise GiveUp
                d += n
            elif k == 'un' and x.get('op') == '&' and same_ref(x.get('e'), v):
                raise GiveUp
            elif k in ('call', 'ctor'):
                pm = x.get('pm') or ''
                for j, a in enumerate(x.get('args') or []):
                    if self.touches(a, v) and (pm[j:j + 1] == 'm' or pm[j:j + 1] == 'p' and v == self.i):
                        raise GiveUp
        return d

    def touches(self, e, v):
        e = strip(e)
        if not isinstance(e, dict):
            return False
        return e.get('k') == 'ref' and same_ref(e, v) and ('*' in self.b.types.get(v, '') or '[' in self.b.types.get(v, ''))

    def writes(self, ast):
        """offsets from i, before ast, at which the buffer is written"""
        out = []
        if not isinstance(ast, dict) or self.i is None:
            return out
        for x in cfg.walk_expr(ast):
            if x.get('k') != 'asg':
                continue
            t = strip(x['a'])
            off = None
            if t.get('k') == 'idx' and same_ref(t['a'], self.buf) and self.buf != self.i:
                off = strip(t['b'])
            elif t.get('k') == 'un' and t.get('op') == '*' and self.buf == self.i:
                off = strip(t['e'])
            elif t.get('k') == 'idx' and self.buf == self.i and same_ref(t['a'], self.i):
                n = lit(t['b'])
                if not isinstance(n, int):
                    raise GiveUp
                out.append((n, x))
                continue
            if off is None:
                continue
            if same_ref(off, self.i):
                out.append((0, x))
            elif off.get('k') == 'un' and same_ref(off.get('e'), self.i) and off.get('op') in ('p++', '++p', '++'):
                if off.get('op') != 'p++':
                    raise GiveUp
                out.append((0, x))
            elif off.get('k') == 'bin' and off.get('op') == '+' and same_ref(off['a'], self.i) and isinstance(lit(off['b']), int):
                out.append((lit(off['b']), x))
            elif self.touches(t['a'] if t.get('k') == 'idx' else t['e'], self.buf) or any(same_ref(y, self.i) for y in cfg.walk_expr(t)):
                raise GiveUp
        return out

    def source(self):
        """the pointer whose character ends the loop"""
        c = strip(self.loop.get('c') or {})
        while c.get('k') == 'bin' and c.get('op') == '&&':
            c = strip(c['a'])
        if c.get('k') == 'bin' and c.get('op') == '!=' and (lit(c['b']) == 0 or strip(c['b']).get('v') == 0):
            c = strip(c['a'])
        if c.get('k') == 'un' and c.get('op') == '*' and ref(c['e']) and ref(c['e']).get('id') is not None:
            return key(ref(c['e'])['id'])
        return None

    def char_at(self, e, c):
        """offset from c of the character e reads"""
        e = strip(e)
        if e.get('k') == 'un' and e.get('op') == '*':
            e = strip(e['e'])
            if e.get('k') == 'ref' and same_ref(e, c):
                return 0
            if e.get('k') == 'bin' and e.get('op') == '+' and same_ref(e['a'], c) and isinstance(lit(e['b']), int):
                return lit(e['b'])
        elif e.get('k') == 'idx' and strip(e['a']).get('k') == 'ref' and same_ref(e['a'], c) and isinstance(lit(e['b']), int):
            return lit(e['b'])
        return None

    def learn(self, n, lab, c, facts):
        """what a branch says about the characters at c; None when it cannot be taken"""
        e = strip(n.ast)
        j = v = None
        eq = None
        if n.kind == 'cond' and e.get('k') == 'bin' and e.get('op') in ('<', '<=', '>', '>='):
            for x, y, op in ((e['a'], e['b'], e['op']), (e['b'], e['a'], {'<': '>', '<=': '>=', '>': '<', '>=': '<='}[e['op']])):
                x, w = strip(x), lit(y)
                if x.get('k') == 'ref' and x.get('dk') == 'var' and self.b.single(key(x['id'])) is not None:
                    x = strip(self.b.single(key(x['id'])))
                if x.get('k') == 'call' and short(x.get('fn', '')) == 'strlen' and same_ref(x['args'][0], c) and isinstance(w, int):
                    if not lab:
                        op = {'<': '>=', '<=': '>', '>': '<=', '>=': '<'}[op]
                    r = dict(facts)
                    if op in ('>', '>='):
                        for i in range(w + (op == '>')):
                            old = r.get(i, (None, frozenset()))
                            if old[0] == 0:
                                return None
                            r[i] = (old[0], old[1] | {0})
                    return r
        if n.kind == 'switch':
            j = self.char_at(e, c)
            if j is None:
                return facts
            if isinstance(lab, tuple) and lab[0] == 'case':
                v = lab[1]
                if v is None:
                    return facts
                eq = True
            else:
                cases = {x[1][1] for x in n.succ if isinstance(x[1], tuple) and x[1][0] == 'case'}
                old = facts.get(j, (None, frozenset()))
                if old[0] is not None and old[0] in cases:
                    return None
                r = dict(facts)
                r[j] = (old[0], old[1] | {x for x in cases if x is not None})
                return r
        else:
            if e.get('k') == 'bin' and e.get('op') in ('==', '!='):
                for x, y in ((e['a'], e['b']), (e['b'], e['a'])):
                    y = strip(y)
                    w = y.get('v') if y.get('k') in ('chr', 'int') else None
                    if w is not None and self.char_at(x, c) is not None:
                        j, v, eq = self.char_at(x, c), w, (e['op'] == '==') == lab
                        break
            elif e.get('k') == 'call' and short(e.get('fn', '')) in ('isspace', 'isdigit', 'isalpha', 'isxdigit', 'isalnum', 'ispunct') and e.get('args'):
                j = self.char_at(e['args'][0], c)
                if j is not None:
                    if not lab:
                        return dict(facts)
                    v, eq = 0, False
            else:
                j = self.char_at(e, c)
                if j is not None:
                    v, eq = 0, not lab
        if j is None:
            return facts
        old = facts.get(j, (None, frozenset()))
        if eq:
            if old[0] is not None and old[0] != v or v in old[1]:
                return None
            new = (v, old[1])
        else:
            if old[0] is not None and old[0] == v:
                return None
            new = (old[0], old[1] | {v})
        r = dict(facts)
        r[j] = new
        return r

    def run(self):
        """(most advance per character, that advance is reached by a path that depends on the text alone,
        writes in the body beyond it, first write after the loop)"""
        c = self.source()
        if c is None or self.head is None or c == self.i or self.loop.get('k') not in ('while', 'for'):
            raise GiveUp
        inside = set()
        st = [self.loop.get('b'), self.loop.get('c'), self.loop.get('inc')]
        for x in (y for z in st if z for y in hf.walk(z)):
            n = self.C.of(x)
            if n is not None:
                inside.add(n.i)
            if x.get('k') in ('while', 'do', 'for', 'rfor', 'goto', 'try'):
                raise GiveUp
        paths, exits, worst = [], [], []
        self.walks = []                  # (advance, characters known to be there, vague, line)
        stack = [(t, 0, 0, True, frozenset([self.head.i]), {}, False) for t, l in self.head.succ]
        count = 0
        while stack:
            n, di, dc, pure, seen, facts, vague = stack.pop()
            count += 1
            if count > 60000:
                raise GiveUp
            if n is self.head:
                paths.append((di, dc, pure))
                continue
            if n.i in seen:
                raise GiveUp
            if n.kind in ('exit', 'texit', 'xexit', 'return'):
                continue
            isin = n.i in inside or n.kind in ('jump',)
            if not isin:
                exits.append((n, di, dc))
                continue
            di2, dc2 = di, dc
            if n.ast is not None and n.kind != 'jump':
                for o, x in self.writes(n.ast):
                    worst.append((di + o, dc, x))
                if n.kind in ('cond', 'switch'):
                    for x in cfg.walk_expr(n.ast):
                        if x.get('k') == 'ref' and x.get('dk') in ('var', 'parm', 'glob') and not same_ref(x, c):
                            pure = False
                        if x.get('k') == 'call':
                            pure = False
                self.loose = False
                adv = self.steps(n.ast, c)
                di2, dc2 = di + self.steps(n.ast, self.i), dc + adv
            else:
                adv, self.loose = 0, False
            loose = self.loose
            for t, l in n.succ:
                if l == 'exc':
                    continue
                f2, v2 = facts, vague
                if n.kind in ('cond', 'switch'):
                    if adv:
                        f2, v2 = {}, True
                    else:
                        f2 = self.learn(n, l, c, facts)
                        if f2 is None:
                            continue             # contradicts an earlier test of the same character
                        v2 = vague or f2 is facts and any(
                            same_ref(x, c) or x.get('dk') == 'var' and any(same_ref(y, c) for d in self.b.defs.get(key(x['id']), []) for y in cfg.walk_expr(d))
                            for x in cfg.walk_expr(n.ast) if x.get('k') == 'ref' and x.get('id') is not None)
                if loose:
                    f2, v2 = {}, False
                elif adv:
                    known = 0
                    while known in facts and (facts[known][0] not in (None, 0) or 0 in facts[known][1]):
                        known += 1
                    self.walks.append((adv, known, vague, n.ast.get('l')))
                    f2 = {j - adv: x for j, x in f2.items() if j >= adv}
                stack.append((t, di2, dc2, pure, seen | {n.i}, f2, v2))
        if not paths:
            raise GiveUp
        r = 0
        for di, dc, pure in paths:
            if di and not dc:
                raise GiveUp
            if di:
                r = max(r, -(-di // dc))
        tight = any(pure and dc and di == r * dc for di, dc, pure in paths)
        after = []
        for n, di, dc in exits:
            # straight-line statements after the loop
            m, d, first, extra = n, di, dc, 0
            for _ in range(4):
                if m.kind not in ('stmt',) or m.ast is None:
                    break
                try:
                    for o, x in self.writes(m.ast):
                        after.append((d + o - r * dc, x, dc == 0 and di == 0))
                    d += self.steps(m.ast, self.i)
                except GiveUp:
                    break
                if len(m.succ) != 1:
                    break
                m = m.succ[0][0]
        return c, r, tight, worst, after


def check_copies(c, b, fn, where):
    n_c = 0
    for L in hf.walk(fn.body):
        if L.get('k') not in ('while', 'for') or L.get('b') is None:
            continue
        w = Copy(b, L, None, None, None, None)
        if w.source() is not None:
            try:
                w.run()
                ls = {}
                for adv, known, vague, l in w.walks:
                    if adv > 1:
                        ls.setdefault(l, []).append((adv, known, vague))
                for l, xs in ls.items():
                    bad = [x for x in xs if x[1] < x[0] and not x[2]]
                    st = '%s: advance by %d' % (where, max(x[0] for x in xs))
                    if bad:
                        c.obligation('walk-end', st, False, 'the pointer is advanced by %d when only %d characters are known to be there' % bad[0][:2], fn.file, l[1] if isinstance(l, tuple) else l)
                    elif all(x[1] >= x[0] for x in xs):
                        c.obligation('walk-end', st, True, '', fn.file, l)
                    else:
                        c.undecide('walk-end', st)
            except GiveUp:
                pass
        cands = set()
        for x in hf.walk(L['b']):
            if x.get('k') != 'asg':
                continue
            t = strip(x['a'])
            if t.get('k') == 'idx' and ref(t['a']) and ref(t['a']).get('dk') == 'var':
                y = strip(t['b'])
                if y.get('k') == 'un' and y.get('op') == 'p++':
                    y = strip(y['e'])
                if ref(y) and ref(y).get('dk') == 'var' and y.get('k') == 'ref':
                    cands.add((key(ref(t['a'])['id']), key(ref(y)['id'])))
            elif t.get('k') == 'un' and t.get('op') == '*':
                y = strip(t['e'])
                if y.get('k') == 'un' and y.get('op') == 'p++':
                    y = strip(y['e'])
                if y.get('k') == 'ref' and y.get('dk') == 'var':
                    cands.add((key(y['id']), key(y['id'])))
        for buf, i in sorted(cands, key=str):
            # where the index starts, and the size of the buffer from there
            init = b.starts(i)
            if len(init) != 1 or i in b.params:
                continue
            if buf == i:
                t = str(b.types.get(i, ''))
                cap, es = b.cap(init[0]), elem_size(t)
            else:
                t = str(b.types.get(buf, ''))
                if lit(init[0]) != 0:
                    continue
                cap = b.cap({'k': 'ref', 'id': buf if False else _id(b, buf), 'dk': 'var', 't': t, 'n': '?'})
                m = re.fullmatch(r'(?:static |const )*(.*?)\s*\[\d+\]', t)
                es = SIZES.get(m.group(1)) if m else elem_size(t)
            if cap is None or not es:
                continue
            site = '%s: copy loop' % where
            try:
                src, r, tight, worst, after = Copy(b, L, buf, i, cap, es).run()
            except GiveUp:
                c.undecide('copy-loop', site)
                continue
            # the string walked: where its pointer starts
            if src in b.params:
                k = ('v', src)
            else:
                sd = b.starts(src, L)
                k = b.K(sd[0]) if len(sd) == 1 else None
            if k is None:
                c.undecide('copy-loop', site)
                continue
            n_c += 1
            at = ('len', k)
            a0 = cap.get(at, 0)
            if any(x not in (1, at) for x in cap):
                c.undecide('copy-loop', site)
                continue
            if not a0 and r == 0:
                continue
            need = []                # constant part of what each write needs, beside r * length
            for d, dc, x in worst:
                need.append((d + 1 - r, x))
            for d, x, atend in after:
                need.append((d + 1, x))
            bad = unk = None
            for nd, x in need:
                ok = a0 >= r * es and cap.get(1, 0) >= nd * es
                if ok:
                    continue
                if a0 < r * es and tight or a0 == r * es and tight and cap.get(1, 0) < nd * es and (nd <= 0 or any(x is y and e for d, y, e in after)):
                    bad = x
                else:
                    unk = x
            if bad is not None:
                c.obligation('copy-loop', site, False, 'up to %d * length + %d elements are written into a buffer of %s bytes'
                             % (r, max(nd for nd, x in need), show(cap)), fn.file, bad.get('l'))
            elif unk is not None:
                c.undecide('copy-loop', site)
            else:
                c.obligation('copy-loop', site, True, '', fn.file, L.get('l'))
    return n_c


def _id(b, k):
    for n in hf.walk(b.fn.body):
        if n.get('k') in ('vardecl', 'ref') and n.get('id') is not None and key(n['id']) == k:
            return n['id']
    return k


def judge(c, rule, site, r, msg, fn, n):
    if r is None:
        c.undecide(rule, site)
    else:
        c.obligation(rule, site, r, msg, fn.file, n.get('l'))


# ------------------------------------------------------------------ tables indexed by a byte
BYTES = {'unsigned char': (0, 255), 'char': (-128, 127), 'signed char': (-128, 127)}


def byte_range(b, ix, d=0):
    """range of an index that is a byte or the result of reading one; None when it is something else"""
    x, least = ix, None
    while isinstance(x, dict) and d < 20:
        d += 1
        t = str(x.get('t', '')).replace('const ', '').replace(' &', '')
        k = x.get('k')
        if t in BYTES:
            return BYTES[t]
        if k in ('cast', 'paren') or k == 'ctor' and len(x.get('args', [])) == 1:
            x = x.get('e') or x['args'][0]
            continue
        if k == 'call' and (short(x.get('fn', '')) in ('peek', 'get') and 'istream' in x.get('fn', '') and not x.get('args') or x.get('fn') in ('getc', 'fgetc', 'getchar')):
            return (-1, 255)
        if k == 'ref' and x.get('dk') == 'var':
            s = b.single(key(x['id']))
            if s is None:
                return None
            x = s
            continue
        return None
    return None


def cmp_of(b, P, e, k, d=0):
    """comparison of the value with key k to a constant: (op, constant)"""
    e = strip(e)
    FL = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}
    if e.get('k') == 'bin' and e.get('op') in FL:
        for x, y, op in ((e['a'], e['b'], e['op']), (e['b'], e['a'], FL[e['op']])):
            v = strip(y)
            v = -1 if v.get('k') == 'un' and v.get('op') == '-' and lit(v['e']) == 1 else v.get('v') if v.get('k') in ('chr', 'int') else lit(y)
            if isinstance(v, int) and same_key(b, x, k):
                return op, v
    if e.get('k') == 'call' and d < 1 and e.get('o') is None:
        for i, x in enumerate(e.get('args', [])):
            if same_key(b, x, k):
                f = P.fns.get(e.get('u'))
                if f is not None and f.body is not None and i < len(f.params):
                    st = [y for y in f.body.get('s', []) if y.get('k') not in ('null', 'nop')]
                    if len(st) == 1 and st[0].get('k') == 'return' and st[0].get('e') is not None:
                        return cmp_of(B(b.X, f), P, st[0]['e'], ('v', key(f.params[i]['id'])), d + 1)
    return None


def same_key(b, x, k):
    if b.K(x) == k:
        return True
    x = strip(x)
    if isinstance(x, dict) and x.get('k') == 'ref' and x.get('dk') == 'var':
        s = b.single(key(x['id']))
        return s is not None and b.K(s) == k
    return False


def mentions(b, e, k):
    return any(isinstance(x, dict) and x.get('k') in ('ref', 'un', 'idx', 'call', 'mem') and same_key(b, x, k) for x in cfg.walk_expr(e))


def narrow(b, P, n, ix, rg):
    lo, hi = rg
    vague = False
    k = b.K(ix)
    C = b.cfg()
    t = C.of(n)
    if k is None or t is None:
        return lo, hi, True
    NEG = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}
    for m in C.nodes:
        if m.kind != 'cond' or m.ast is None or m is t:
            continue
        if not mentions(b, m.ast, k):
            continue
        q = strip(m.ast)
        neg = False
        while q.get('k') == 'un' and q.get('op') == '!':
            q, neg = strip(q['e']), not neg
        for lab in (True, False):
            if C.before(t, None, lambda mm, l: mm is m and l == lab) is not None:
                continue
            r = cmp_of(b, P, q, k)
            if r is None:
                vague = True
                continue
            op, v = r
            if lab == neg:
                op = NEG[op]
            if op == '<':
                hi = min(hi, v - 1)
            elif op == '<=':
                hi = min(hi, v)
            elif op == '>':
                lo = max(lo, v + 1)
            elif op == '>=':
                lo = max(lo, v)
            elif op == '==':
                lo, hi = max(lo, v), min(hi, v)
            elif op == '!=':
                lo, hi = lo + (lo == v), hi - (hi == v)
    return lo, hi, vague


def check_tables(c, X, P, fns):
    size = {}           # field -> (least size given to it, line, file)
    for f in P.fns.values():
        if f.kind in ('ctor', None) or f.inits:
            for i in f.inits or []:
                e = strip(i.get('e')) if i.get('e') else None
                if i.get('f') and isinstance(e, dict) and e.get('k') == 'ctor' and 'vector' in e.get('fn', ''):
                    a = [x for x in e.get('args', []) if x.get('k') != 'defarg']
                    if a and lit(a[0]) is not None and str(a[0].get('t', '')) not in ('char',) and not isinstance(lit(a[0]), bool):
                        size.setdefault(i['f'], []).append((lit(a[0]), f.file, i.get('l')))
    for q, r in P.recs.items():
        for fl in r['fields']:
            m = re.fullmatch(r'(.*?)\s*\[(\d+)\]', fl['t'])
            if m:
                size.setdefault(fl['q'], []).append((int(m.group(2)), r['file'], fl.get('l') or r['l']))
    n_t = 0
    resized = set()
    for fn in fns:
        for n in hf.walk(fn.body):
            if n.get('k') == 'call' and short(n.get('fn', '')) in ('resize', 'assign', 'push_back', 'insert', 'swap', 'reserve') and n.get('o') is not None and strip(n['o']).get('k') == 'mem':
                resized.add(strip(n['o']).get('n'))
    for fn in fns:
        b = None
        for n in hf.walk(fn.body):
            tb = ix = None
            if n.get('k') == 'idx':
                tb, ix = n['a'], n['b']
            elif n.get('k') == 'call' and n.get('op') == '[]' and n.get('o') is not None and n.get('args'):
                tb, ix = n['o'], n['args'][0]
            if tb is None:
                continue
            t = strip(tb)
            if t.get('k') != 'mem' or t.get('n') not in size or t.get('n') in resized:
                continue
            b = b or B(X, fn)
            rg = byte_range(b, ix)
            if rg is None:
                continue
            site = '%s indexed by a byte in %s' % (t['n'].replace('hfst::', ''), fn.name)
            least = min(x[0] for x in size[t['n']])
            g = narrow(b, P, n, ix, rg)
            n_t += 1
            if rg[0] >= 0 and rg[1] < least or g[0] >= 0 and g[1] < least:
                c.obligation('byte-table', site, True, '', fn.file, n.get('l'))
            elif g[2] or g[0] < 0 and g[1] < least and strip(ix).get('k') == 'call':      # an end of file may have been excluded by a peek
                c.undecide('byte-table', site)
            else:
                c.obligation('byte-table', site, False, 'a table of %d entries is indexed by a value from %d to %d' % (least, g[0], g[1]), fn.file, n.get('l'))
    return n_t


def check(c):
    files, skipped = hf.extract_all(hf.sources(), optional=True)
    c.floor('source files', len(files), 100)
    for f, e in skipped:
        c.undecide('fits', f + ': not parsed')
    P = hf.Program(files)
    X = Ctx(P)
    fns = [f for f in P.fns.values() if f.body is not None]
    c.floor('functions', len(fns), 1000)
    n = 0
    for fn in fns:
        check_fn(c, X, fn, set())
        if any(x.get('k') in ('while', 'for') for x in hf.walk(fn.body)):
            n += check_copies(c, B(X, fn), fn, fn.q.replace('hfst::', '').replace('implementations::', ''))
    c.floor('copying loops', n, 1)
    n = check_tables(c, X, P, fns)
    c.floor('tables indexed by a byte', n, 1)


chk.main('C15', check, 'every sprintf, strcpy, strcat, memcpy, strncpy, snprintf, fgets, fread, read, getline, sscanf and element store into a buffer whose size is '
         'known from its declaration or allocation; every table indexed by a byte')
