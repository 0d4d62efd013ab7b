"""Typestate of hfst::HfstTransducer: the implementation type tag and the union of backend objects."""
import hf
from absint import A, St, Hooks, K, isk, short, INF, contains

HT = 'hfst::HfstTransducer'
MEMBERS = {'sfst': ('SFST_TYPE',), 'tropical_ofst': ('TROPICAL_OPENFST_TYPE',), 'log_ofst': ('LOG_OPENFST_TYPE',),
           'foma': ('FOMA_TYPE',), 'xfsm': ('XFSM_TYPE',), 'hfst_ol': ('HFST_OL_TYPE', 'HFST_OLW_TYPE')}
BACK = {'hfst::implementations::SfstTransducer': 'SFST_TYPE', 'hfst::implementations::TropicalWeightTransducer': 'TROPICAL_OPENFST_TYPE',
        'hfst::implementations::LogWeightTransducer': 'LOG_OPENFST_TYPE', 'hfst::implementations::FomaTransducer': 'FOMA_TYPE',
        'hfst::implementations::HfstOlTransducer': 'HFST_OL_TYPE'}


def ishfst(t):
    t = t.replace('const ', '').rstrip('&* ').strip()
    return t == HT


def types(P):
    e = P.enums.get('hfst::ImplementationType')
    if not e:
        raise hf.AnalysisBroken('enum hfst::ImplementationType not found')
    return {k.split('::')[-1]: v for k, v in e.items()}


class TypeHooks(Hooks):
    """models the effect of HfstTransducer members on the type tag; the model (tag unchanged except by the
    constructors, assignment and convert) is itself verified by running every member against it (see C01)"""
    def __init__(self, P):
        self.P = P

    def tyloc(self, loc):
        return ('f', loc, 'type')

    def inline(self, A, fn):
        if fn.cls == HT and fn.name in ('get_type',):
            return True
        return False

    def known_type(self, A, s, node, fn, args):
        return None

    def call(self, A, s, node, fn, recv, args):
        vals, locs = args
        if fn == HT + '::HfstTransducer' or node.get('k') == 'ctor' and node.get('fn') in (HT, HT + '::HfstTransducer'):
            tv = None
            rt = [a.get('t', '') for a in node.get('args', [])]
            for i, t in enumerate(rt):
                if i < len(vals) and t.replace('const ', '').strip().endswith('ImplementationType'):
                    tv = vals[i]
            if tv is None and len(vals) == 1 and ishfst(rt[0]):
                tv = A.content(s, self.tyloc(locs[0])) if locs[0] is not None else A.fldof(vals[0], 'type')
            s1, v = A.opaque(s, node)
            if tv is None and not vals:
                tv = K(types(self.P)['UNSPECIFIED_TYPE'])
            if tv is not None:
                v = ('agg', v, (('type', A.simp(s, tv)),))
            return [(s1, v)]
        f = self.P.fns.get(node.get('u'))
        if node.get('k') == 'call' and f is not None and self.inline(A, f):
            return None
        mem = recv is not None and (f is not None and f.cls == HT or fn.startswith(HT + '::')) and not node.get('st')
        cand = []
        if mem and not node.get('cm'):
            cand.append(recv)
        for i, l in enumerate(locs):
            a = node.get('args', [])[i] if i < len(node.get('args', [])) else {}
            if ishfst(a.get('t', '')):
                if l is not None and not a.get('t', '').rstrip().endswith('*'):
                    cand.append(l)
                elif vals[i][0] == 'addr':
                    cand.append(vals[i][1])
        if not mem and not cand:
            return None
        if not (fn.startswith('hfst::') or mem):
            return None
        old = [(l, A.simp(s, A.content(s, self.tyloc(l)))) for l in cand]
        name = short(fn)
        if mem and (name == 'convert' or name == 'operator=' or node.get('op') == '='):
            if name == 'convert':
                nt = vals[0] if vals else None
            else:
                nt = A.content(s, self.tyloc(locs[0])) if locs and locs[0] is not None else (A.fldof(vals[0], 'type') if vals else None)
            old = [(l, nt if l == recv and nt is not None else o) for l, o in old]
        mt = self.may_throw(A, s, node, fn)
        if mt:
            A.throws[-1].append((s, mt))
        res = A.summary_call(node, s, f, fn, recv, vals, locs)
        out = []
        for s1, v in res:
            for l, o in old:
                s1 = A.rawstore(s1, self.tyloc(l), o)
            if mem and ishfst(node.get('t', '')) and node.get('t', '').rstrip().endswith('*') and v[0] in ('r', 'm'):
                s1 = A.rawstore(s1, self.tyloc(('d', v)), A.simp(s, A.content(s, self.tyloc(recv))))
            elif mem and ishfst(node.get('t', '')) and f is not None and f.ret.rstrip().endswith('&'):
                v = ('refto', recv)     # chained operations return *this
            out.append((s1, v))
        return out

    def allowed(self, A, s, tv, want):
        """True / False / None: the tag value tv lies within want"""
        tv = A.simp(s, tv)
        if isk(tv):
            return tv[1] in want
        c = A.constraint(s, tv)
        if c[0] == -INF or c[1] >= INF:
            for o in self.equals(s, tv):
                if isk(o):
                    return o[1] in want
                c2 = A.constraint(s, o)
                if c2[0] > -INF and c2[1] < INF:
                    c = c2
                    break
            else:
                return None
        vals = {x for x in range(int(c[0]), int(c[1]) + 1) if x not in c[2]}
        if vals <= want:
            return True
        for o in self.equals(s, tv):
            if isk(o) and o[1] in want:
                return True
            c = A.constraint(s, o)
            if c[0] > -INF and c[1] < INF and {x for x in range(int(c[0]), int(c[1]) + 1) if x not in c[2]} <= want:
                return True
        return None if vals & want else False

    def equals(self, s, tv):
        out = []
        for k, f in s.facts.items():
            if k[0] == '==' and f[0] == f[1] == 1:
                if k[1] == tv:
                    out.append(k[2])
                elif k[2] == tv:
                    out.append(k[1])
        return out
