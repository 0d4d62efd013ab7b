"""Control-flow graph of a function over the resolved syntax tree, with must-pass queries.

One node per full expression or leaf condition (&&, || and ! are decomposed into branches).  Calls that do not return end in 'xexit';
exceptions are followed to the handlers of the enclosing try and out of the function when a 'throws' predicate is given."""
import hf
from absint import short

NORETURN = {'exit', '_exit', 'abort', '_Exit', 'quick_exit', '__assert_fail', 'longjmp', 'terminate'}


class Node:
    __slots__ = ('i', 'kind', 'ast', 'succ', 'pred', 'l', 'stmt')

    def __init__(self, i, kind, ast=None):
        self.i, self.kind, self.ast, self.succ, self.pred, self.stmt = i, kind, ast, [], [], None
        self.l = ast.get('l') if isinstance(ast, dict) else None
        if kind in ('head', 'dispatch', 'handler', 'label', 'jump'):       # the expressions inside belong to other nodes
            self.stmt = ast
            self.ast = {'k': kind, 'l': self.l}
            if ast.get('k') == 'rfor':
                self.ast['e'] = ast['range']

    def __repr__(self):
        return '<%s %s l%s>' % (self.kind, self.i, self.l)


def strip(n):
    while isinstance(n, dict) and n.get('k') in ('cast', 'paren', 'defarg', 'definit', 'opq') and isinstance(n.get('e'), dict):
        n = n['e']
    return n


def lit(n):
    n = strip(n)
    if not isinstance(n, dict):
        return None
    if n.get('k') == 'null':
        return 0
    v = n.get('v')
    return v if type(v) in (int, bool, float) else None


def ref(n):
    n = strip(n)
    while isinstance(n, dict) and n.get('k') == 'ctor' and len(n.get('args', [])) == 1:
        n = strip(n['args'][0])
    return n if isinstance(n, dict) and n.get('k') == 'ref' else None


def walk_expr(n):
    """nodes of an expression, not the bodies of lambdas"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, list):
            st.extend(x)
            continue
        if not isinstance(x, dict):
            continue
        yield x
        for k, v in x.items():
            if x.get('k') == 'lambda' and k == 'body':
                continue
            if isinstance(v, (dict, list)):
                st.append(v)


def noreturn_call(n):
    if n.get('k') != 'call':
        return False
    s = short(n.get('fn', ''))
    if s in NORETURN:
        return True
    if s in ('error', 'error_at_line', 'hfst_error', 'hfst_error_at_line') and n.get('args') and lit(n['args'][0]) not in (None, 0):
        return True
    return False


class CFG:
    def __init__(self, fn, throws=None, noreturn=noreturn_call, body=None):
        self.fn = fn
        self.nodes = []
        self.throws = throws
        self.noreturn = noreturn
        self.home = {}
        self.entry = self.new('entry')
        self.exit = self.new('exit')
        self.texit = self.new('texit')
        self.xexit = self.new('xexit')
        self.labels = {}
        self.gotos = []
        self.hstack = [[(self.texit, None)]]
        b = body if body is not None else fn.body
        last = self.stmts([b], [(self.entry, None)], None, None)
        for n, lab in last:
            self.edge(n, self.exit, lab)
        for n, lab, name in self.gotos:
            if name in self.labels:
                self.edge(n, self.labels[name], lab)
        for n in self.nodes:
            for s, lab in n.succ:
                s.pred.append((n, lab))

    def new(self, kind, ast=None):
        n = Node(len(self.nodes), kind, ast)
        self.nodes.append(n)
        return n

    def edge(self, a, b, lab=None):
        a.succ.append((b, lab))

    def attach(self, node, preds):
        for p, lab in preds:
            self.edge(p, node, lab)

    def expr(self, e, preds, kind='stmt'):
        """one node for a full expression; returns fallthrough preds"""
        if e is None:
            return preds
        n = self.new(kind, e)
        self.attach(n, preds)
        thr = nor = False
        for x in walk_expr(e):
            self.home[id(x)] = n
            if x.get('k') == 'throw':
                thr = True
                nor = True
            elif x.get('k') in ('call', 'ctor', 'new', 'delete'):
                if self.noreturn(x):
                    self.edge(n, self.xexit, 'noreturn')
                    return []
                if self.throws(x) if self.throws else len(self.hstack) > 1:
                    thr = True
        if thr:
            for t, lab in self.hstack[-1]:
                self.edge(n, t, 'exc')
        return [] if nor and strip(e).get('k') == 'throw' else [(n, None)]

    def cond(self, c, preds):
        """(true preds, false preds)"""
        s = strip(c)
        if isinstance(s, dict):
            if s.get('k') == 'un' and s.get('op') == '!':
                self.home_all(s, None)
                t, f = self.cond(s['e'], preds)
                return f, t
            if s.get('k') == 'bin' and s.get('op') == '&&':
                t, f = self.cond(s['a'], preds)
                t2, f2 = self.cond(s['b'], t)
                return t2, f + f2
            if s.get('k') == 'bin' and s.get('op') == '||':
                t, f = self.cond(s['a'], preds)
                t2, f2 = self.cond(s['b'], f)
                return t + t2, f2
        r = self.expr(c, preds, 'cond')
        if not r:
            return [], []
        n = r[0][0]
        v = lit(c)
        t = [(n, True)] if v is None or v else []
        f = [(n, False)] if v is None or not v else []
        return t, f

    def home_all(self, n, node):
        pass

    def stmts(self, lst, preds, brk, cont):
        for s in lst:
            preds = self.stmt(s, preds, brk, cont)
        return preds

    def stmt(self, s, preds, brk, cont):
        if s is None or not isinstance(s, dict):
            return preds
        k = s.get('k')
        if k == 'block':
            return self.stmts(s.get('s', []), preds, brk, cont)
        if k == 'decl':
            for v in s.get('vars', []):
                if not v.get('static'):
                    preds = self.expr(v, preds)
                else:
                    preds = self.expr(v, preds)
            return preds
        if k == 'nop':
            return preds
        if k == 'if':
            if s.get('i'):
                preds = self.stmt(s['i'], preds, brk, cont)
            if s.get('cv'):
                preds = self.expr(s['cv'], preds)
            t, f = self.cond(s['c'], preds)
            a = self.stmt(s.get('a'), t, brk, cont)
            b = self.stmt(s.get('b'), f, brk, cont) if s.get('b') else f
            return a + b
        if k in ('while', 'do', 'for', 'rfor'):
            return self.loop(s, preds)
        if k == 'switch':
            return self.switch(s, preds, cont)
        if k in ('case', 'default'):
            return self.stmt(s.get('s'), preds, brk, cont)      # outside a handled switch
        if k == 'break':
            n = self.new('jump', s)
            self.attach(n, preds)
            if brk is not None:
                brk.append((n, None))
            return []
        if k == 'continue':
            n = self.new('jump', s)
            self.attach(n, preds)
            if cont is not None:
                cont.append((n, None))
            return []
        if k == 'return':
            n = self.new('return', s)
            self.attach(n, preds)
            self.home[id(s)] = n
            if s.get('e'):
                thr = False
                for x in walk_expr(s['e']):
                    self.home[id(x)] = n
                    if x.get('k') == 'throw' or x.get('k') in ('call', 'ctor', 'new') and (self.throws(x) if self.throws else len(self.hstack) > 1):
                        thr = True
                if thr:
                    for t, lab in self.hstack[-1]:
                        self.edge(n, t, 'exc')
            self.edge(n, self.exit)
            return []
        if k == 'try':
            disp = self.new('dispatch', s)
            outer = self.hstack[-1]
            self.hstack.append([(disp, None)])
            last = self.stmt(s['b'], preds, brk, cont)
            self.hstack.pop()
            anyall = False
            for h in s.get('h', []):
                hn = self.new('handler', h)
                self.edge(disp, hn, ('catch', h.get('t')))
                last = last + self.stmt(h['s'], [(hn, None)], brk, cont)
                if 't' not in h:
                    anyall = True
            if not anyall:
                for t, lab in outer:
                    self.edge(disp, t, 'exc')
            return last
        if k == 'label':
            n = self.new('label', s)
            self.attach(n, preds)
            self.labels[s['n']] = n
            return self.stmt(s.get('s'), [(n, None)], brk, cont)
        if k == 'goto':
            n = self.new('jump', s)
            self.attach(n, preds)
            self.gotos.append((n, None, s['n']))
            return []
        return self.expr(s, preds)

    def loop(self, s, preds):
        k = s['k']
        brk, cont = [], []
        if k == 'for' and s.get('i'):
            preds = self.stmt(s['i'], preds, None, None)
        head = self.new('head', s)
        self.attach(head, preds)
        if k == 'rfor':
            for x in walk_expr(s['range']):
                self.home[id(x)] = head
            body = self.stmt(s['b'], [(head, True)], brk, cont)
            for p, lab in body + cont:
                self.edge(p, head, lab)
            return [(head, False)] + brk
        if k == 'do':
            body = self.stmt(s['b'], [(head, None)], brk, cont)
            t, f = self.cond(s['c'], body + cont)
            for p, lab in t:
                self.edge(p, head, lab)
            return f + brk
        c = s.get('c')
        if s.get('cv'):
            self.expr(s['cv'], [(head, None)])
        if c is None:
            t, f = [(head, None)], []
        else:
            t, f = self.cond(c, [(head, None)])
        body = self.stmt(s['b'], t, brk, cont)
        back = body + cont
        if k == 'for' and s.get('inc'):
            back = self.expr(s['inc'], back)
        for p, lab in back:
            self.edge(p, head, lab)
        return f + brk

    def switch(self, s, preds, cont):
        r = self.expr(s['c'], preds, 'switch')
        if not r:
            return []
        sw = r[0][0]
        brk = []
        items = s['b'].get('s', []) if isinstance(s.get('b'), dict) and s['b'].get('k') == 'block' else [s.get('b')]
        cur = []
        dflt = False
        for it in items:
            while isinstance(it, dict) and it.get('k') in ('case', 'default'):
                if it['k'] == 'default':
                    dflt = True
                    cur = cur + [(sw, 'default')]
                else:
                    cur = cur + [(sw, ('case', lit(it['c'])))]
                it = it.get('s')
            cur = self.stmt(it, cur, brk, cont)
        if not dflt:
            cur = cur + [(sw, 'nocase')]
        return cur + brk

    # ---- queries
    def of(self, ast):
        return self.home.get(id(ast))

    def search(self, starts, stop_node=None, stop_edge=None, skip_first=False):
        """nodes reachable from starts not passing a stop node or stop edge; node -> predecessor"""
        prev = {}
        work = []
        for s in starts:
            if s.i not in prev:
                prev[s.i] = None
                work.append((s, skip_first))
        out = {}
        while work:
            n, first = work.pop()
            out[n.i] = n
            if not first and stop_node and n.ast is not None and stop_node(n):
                del out[n.i]
                out[('stop', n.i)] = n
                continue
            for t, lab in n.succ:
                if stop_edge and n.ast is not None and stop_edge(n, lab):
                    continue
                if t.i not in prev:
                    prev[t.i] = n.i
                    work.append((t, False))
        self.prev = prev
        return out

    def path(self, node):
        """lines of the path found by the last search"""
        ls = []
        i = node.i
        while i is not None:
            l = self.nodes[i].l
            if l is not None and (not ls or ls[-1] != l):
                ls.append(l)
            i = self.prev.get(i)
        return ' -> '.join(map(str, reversed(ls)))

    def before(self, target, stop_node=None, stop_edge=None):
        """None when every path from the entry to target passes a stop node/edge, else a witness path"""
        r = self.search([self.entry], stop_node, stop_edge)
        if target.i in r:
            return self.path(target) or '(entry)'
        return None

    def after(self, src, stop_node=None, stop_edge=None, exits=None):
        """None when every path from src to an exit passes a stop node/edge, else (exit, witness path)"""
        starts = [t for t, lab in src.succ if not (stop_edge and src.ast is not None and stop_edge(src, lab))]
        r = self.search(starts, stop_node, stop_edge)
        for e in (exits if exits is not None else [self.exit]):
            if e.i in r:
                p = self.path(e)
                return e, ('%s -> %s' % (src.l, p) if p else str(src.l))
        return None
