"""A small interpreter of the code that builds one network from others, over an algebra of networks: a network made of the operands by
concatenation and union only is the set of words over the operands' names, anything else is a term.  Nothing is executed: statements are read
from the syntax tree; what cannot be read raises Unknown."""
import hf


class Unknown(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cell:
    def __init__(self, net):
        self.net = net


class Thrown(Exception):
    pass


EPS, EMPTY = frozenset(['']), frozenset()


def cat(x, y):
    if isinstance(x, frozenset) and isinstance(y, frozenset):
        return frozenset(a + b for a in x for b in y)
    if x == EPS:
        return y
    if y == EPS:
        return x
    if x == EMPTY or y == EMPTY:
        return EMPTY
    for a, b in ((x, y), (y, x)):
        if b == ('star', a):
            return ('plus', a)
    return ('cat', x, y)


def power(x, n):
    r = EPS
    for _ in range(n):
        r = cat(r, x)
    return r


def members(x):
    return x[1] if isinstance(x, tuple) and x[0] == 'or' else frozenset([x])


def union(x, y):
    if x == EMPTY:
        return y
    if y == EMPTY:
        return x
    if isinstance(x, frozenset) and isinstance(y, frozenset):
        return x | y
    for a, b in ((x, y), (y, x)):
        if isinstance(a, tuple) and a[0] == 'plus' and b == EPS:
            return ('star', a[1])
    m = members(x) | members(y)
    return ('or', m) if len(m) > 1 else next(iter(m))


def inv(x):
    if isinstance(x, tuple) and x[0] == 'sym':
        return ('sym', x[2], x[1])
    return x[1] if isinstance(x, tuple) and x[0] == 'invert' else ('invert', x)


def comm(op, x, y):
    return (op, frozenset([x, y]))


def show(x):
    if isinstance(x, frozenset):
        if not x:
            return 'nothing'
        return '|'.join(''.join(' t' + c for c in w).strip() or 'epsilon' if isinstance(w, str) else show(w) for w in sorted(x, key=lambda w: (len(w), repr(w))))
    if isinstance(x, tuple):
        return '%s(%s)' % (x[0], ', '.join(show(y) for y in x[1:]))
    return str(x)


EDIT = {'AddState', 'AddArc', 'SetFinal', 'SetStart', 'DeleteStates', 'DeleteArcs', 'MutableArcIterator', 'EmplaceArc', 'AddStates', 'new_node', 'add_arc', 'set_final',
        'add_transition', 'add_state', 'set_final_weight', 'fsm_substitute_symbol', 'ArcMap', 'StateMap', 'swap', 'substitute', 'insert_freely', 'add_to_weights'}


def edited(x):
    return isinstance(x, tuple) and (x[:1] == ('edited',) or any(edited(y) for y in x)) or isinstance(x, frozenset) and any(edited(y) for y in x)


def unedit(x):
    if isinstance(x, tuple) and x[:1] == ('edited',):
        return unedit(x[1])
    if isinstance(x, tuple):
        y = tuple(unedit(z) for z in x)
        if y[0] == 'cat':
            return cat(y[1], y[2])
        if y[0] == 'or':
            r = EMPTY
            for z in y[1]:
                r = union(r, z)
            return r
        return y
    if isinstance(x, frozenset) and any(not isinstance(z, str) for z in x):
        return frozenset(unedit(z) for z in x)
    return x


class I:
    """sem: name -> function(interp, node, recv cell or None, argument thunks) giving a value; noop: names that keep the relation"""
    def __init__(self, P, sem, noop, cls, inplace=False):
        self.P, self.sem, self.noop, self.cls = P, sem, noop, cls
        self.inplace = inplace
        self.depth = 0
        self.steps = 0
        self.uses = 0

    def name(self, n):
        q = (n.get('fn') or '').rsplit('::', 1)[-1]
        return q if q.startswith('operator') else q.split('<')[0]

    def edit(self, cell):
        if isinstance(cell, Cell) and not edited(cell.net):
            cell.net = ('edited', cell.net)

    def skip(self, n, env):
        """code that is not followed: networks it edits state by state are not known as such any more"""
        for x in hf.walk(n):
            if x.get('k') in ('call', 'ctor') and self.name(x) in EDIT:
                for y in hf.walk(x):
                    if y.get('k') == 'ref' and y.get('id') is not None and isinstance(env.get(tuple(y['id'])), Cell):
                        self.edit(env[tuple(y['id'])])
                    elif y.get('k') == 'this':
                        self.edit(env.get('this'))

    # -- what a piece of code that cannot be followed may do to a network
    def relevant(self, n):
        for x in hf.walk(n):
            k = x.get('k')
            if k in ('return', 'goto'):
                return True
            if k in ('call', 'ctor'):
                nm = self.name(x)
                if nm in self.sem or nm in ('swap',):
                    return True
                g = self.P.fns.get(x.get('u'))
                if g is not None and g.cls == self.cls and g.body is not None and self.isnet(g.ret or ''):
                    return True
            if k == 'asg' and self.isnet((x.get('a') or {}).get('t', '')):
                return True
        return False

    def isnet(self, t):
        t = t.replace('const ', '').replace('class ', '').rstrip(' &*')
        return t.endswith('Transducer') and 'Basic' not in t and 'Iterable' not in t or 'Fst<' in t and 'Iterator' not in t and not t.startswith('std::') or t in ('fsm', 'struct fsm')

    def run(self, f, args, this=None):
        self.depth += 1
        if self.depth > 8 or f.body is None:
            raise Unknown('depth')
        env = {'this': this}
        for p, a in zip(f.params, args):
            # an object taken by value is a copy
            if isinstance(a, Cell) and not p['t'].rstrip().endswith(('*', '&')) and self.isnet(p['t']):
                a = Cell(a.net)
            env[tuple(p['id'])] = a
        try:
            self.st(f.body, env)
            r = None
        except Ret as e:
            r = e.v
        self.depth -= 1
        return r

    def st(self, n, env):
        if n is None:
            return
        self.steps += 1
        if self.steps > 20000:
            raise Unknown('steps')
        k = n.get('k')
        if k == 'block':
            for x in n['s']:
                self.st(x, env)
        elif k == 'decl':
            for v in n['vars']:
                self.decl(v, env)
        elif k == 'return':
            raise Ret(self.ev(n['e'], env) if n.get('e') is not None else None)
        elif k == 'if':
            c = self.ev(n['c'], env)
            if isinstance(c, bool) or isinstance(c, int):
                self.st(n['a'] if c else n.get('b'), env)
            elif c is None:
                if self.throws(n['a']):
                    self.st(n.get('b'), env)
                elif self.relevant(n['a']) or n.get('b') is not None and self.relevant(n['b']):
                    raise Unknown('branch at %s' % n.get('l'))
                else:
                    self.skip(n, env)
            else:
                raise Unknown('condition')
        elif k in ('for', 'while', 'do', 'rfor'):
            self.loop(n, env)
        elif k == 'throw':
            raise Thrown()
        elif k in ('break', 'continue'):
            raise Brk(k)
        elif k in ('nop', 'null', 'delete', 'case', 'default', 'label'):
            return
        elif k == 'try':
            self.st(n.get('b') or n.get('body') or n.get('s'), env)
        elif k in ('switch', 'goto'):
            if self.relevant(n):
                raise Unknown(k)
            self.skip(n, env)
        else:
            self.ev(n, env)

    def throws(self, n):
        while n is not None and n.get('k') == 'block':
            if not n['s']:
                return False
            n = n['s'][-1]
        if n is None:
            return False
        if n.get('k') == 'throw':
            return True
        # the throwing macros are a call or a one-round block around throw
        return any(x.get('k') == 'throw' for x in hf.walk(n)) and not any(x.get('k') == 'return' for x in hf.walk(n)) and n.get('k') not in ('if', 'for', 'while')

    def loop(self, n, env):
        k = n['k']
        if k == 'rfor':
            if self.ev(n.get('range'), env) == ('none',):
                return
            if self.relevant(n):
                raise Unknown('range loop at %s' % n.get('l'))
            self.skip(n, env)
            return
        if k == 'for' and n.get('i') is not None:
            try:
                self.st(n['i'], env)
            except Unknown:
                if self.relevant(n):
                    raise
        for r in range(40):
            if k != 'do' or r:
                c = self.ev(n['c'], env) if n.get('c') is not None else True
                if not isinstance(c, (bool, int)):
                    if self.relevant(n):
                        raise Unknown('loop at %s' % n.get('l'))
                    self.skip(n, env)
                    return
                if not c:
                    return
            try:
                b = n.get('b') if n.get('b') is not None else n.get('body')
                self.st(b, env)
            except Brk as e:
                if e.args[0] == 'break':
                    return
            if n.get('inc') is not None:
                self.ev(n['inc'], env)
        raise Unknown('long loop')

    def decl(self, v, env):
        t = v.get('t', '')
        if v.get('init') is None:
            env[tuple(v['id'])] = Cell(EMPTY) if self.isnet(t) and not t.rstrip().endswith('*') else None
            return
        x = self.ev(v['init'], env)
        if isinstance(x, Cell) and self.isnet(t) and not t.rstrip().endswith(('*', '&')) and v['init'].get('k') not in ('ctor', 'new'):
            x = Cell(x.net)
        if isinstance(x, list) and not t.rstrip().endswith(('*', '&')):
            x = list(x)
        env[tuple(v['id'])] = x

    def ev(self, n, env):
        if n is None:
            return None
        k = n.get('k')
        if k in ('int', 'bool'):
            return n['v']
        if k == 'str':
            return ('str', n['v'])
        if k == 'this':
            return env['this']
        if k == 'ref':
            if n.get('dk') == 'enum':
                return ('enum', n['n'].rsplit('::', 1)[-1])
            if n.get('id') is not None and tuple(n['id']) in env:
                return env[tuple(n['id'])]
            if n.get('v') is not None:
                return n['v']
            return ('name', n['n'].rsplit('::', 1)[-1]) if n.get('dk') not in ('var', 'parm') or n.get('id') is None else None
        if k == 'defarg':
            return self.ev(n.get('e'), env)
        if k in ('cast', 'paren', 'implicit'):
            x = n.get('e')
            return self.ev(x, env)
        if k == 'un':
            op = n['op']
            v = self.ev(n['e'], env)
            if op in ('*', '&'):
                return v
            if op in ('++', 'p++', '++p', '--', 'p--', '--p', 'post++', 'post--', 'pre++', 'pre--') or '++' in op or '--' in op:
                e = n['e']
                if e.get('k') == 'ref' and isinstance(v, int):
                    env[tuple(e['id'])] = v + (1 if '++' in op else -1)
                return v
            if op == '!':
                return None if not isinstance(v, (bool, int)) else not v
            if op == '-' and isinstance(v, int):
                return -v
            return None
        if k == 'addr':
            return self.ev(n.get('e'), env)
        if k == 'bin':
            op = n['op']
            a = self.ev(n['a'], env)
            if op == '&&' and a is not None and isinstance(a, (bool, int)) and not a:
                return False
            if op == '||' and a is not None and isinstance(a, (bool, int)) and a:
                return True
            b = self.ev(n['b'], env)
            if op == ',':
                return b
            if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
                f = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b,
                     '>=': lambda: a >= b, '==': lambda: a == b, '!=': lambda: a != b, '&&': lambda: bool(a and b), '||': lambda: bool(a or b)}.get(op)
                return f() if f else None
            return None
        if k == 'cond':
            c = self.ev(n['c'], env)
            if isinstance(c, (bool, int)):
                return self.ev(n['a'] if c else n['b'], env)
            a, b = self.ev(n['a'], env), self.ev(n['b'], env)
            if isinstance(a, Cell) or isinstance(b, Cell):
                raise Unknown('choice')
            return a if a == b else None
        if k == 'asg':
            v = self.ev(n['b'], env)
            a = n['a']
            if n.get('op', '=') != '=':
                o = self.ev(a, env)
                v = (o + v if n['op'] == '+=' else o - v if n['op'] == '-=' else None) if isinstance(o, int) and isinstance(v, int) else None
            t = a.get('t', '')
            if a.get('k') == 'ref' and a.get('id') is not None:
                if self.isnet(t) and not t.rstrip().endswith('*'):
                    c = self.ev(a, env)
                    if isinstance(c, Cell) and isinstance(v, Cell):
                        c.net = v.net
                        return c
                    raise Unknown('assignment')
                env[tuple(a['id'])] = v
                return v
            if self.isnet(t):
                c = self.ev(a, env)
                if isinstance(c, Cell) and isinstance(v, Cell) and not t.rstrip().endswith('*'):
                    c.net = v.net
                    return c
                raise Unknown('assignment')
            return v
        if k == 'new':
            return self.ev(n.get('e'), env)
        if k in ('call', 'ctor'):
            return self.call(n, env)
        if k == 'list':
            xs = n.get('e', n.get('es', n.get('s')))
            return None
        for x in hf.walk(n):
            if x is not n and x.get('k') in ('call', 'asg') and self.relevant(x):
                raise Unknown('expression %s' % k)
        return None

    def call(self, n, env):
        nm = self.name(n)
        recv = self.ev(n['o'], env) if n.get('o') is not None else None
        if recv is None and n.get('o') is not None and n['o'].get('k') == 'this':
            recv = env['this']
        args = [self.ev(a, env) for a in n.get('args', [])]
        t = n.get('t', '')
        if nm == 'operator=' and len(args) + (recv is not None) == 2:
            x = ([recv] if recv is not None else []) + args
            if isinstance(x[0], Cell):
                if not isinstance(x[1], Cell):
                    raise Unknown('assignment')
                x[0].net = x[1].net
                return x[0]
        if nm in self.sem:
            self.uses += 1
            r = self.sem[nm](self, n, recv, args)
            if r is not None:
                return r
        if nm in EDIT and (self.P.fns.get(n.get('u')) is None or self.P.fns[n['u']].cls != self.cls or self.inplace):
            for x in [recv] + args:
                self.edit(x)
            if not self.isnet(t):
                return None
            if self.inplace and isinstance(recv, Cell):
                return recv
        if nm == 'push_back' and isinstance(recv, list):
            recv.append(args[0])
            return None
        if n['k'] == 'ctor':
            q = n.get('fn', '')
            if 'pair' in q and len(args) == 2:
                return ('pair', args[0], args[1])
            if ('pair' in q) and len(args) == 1:
                return args[0]
            if 'basic_string' in q and args:
                return args[0]
            if 'vector' in q:
                return list(args[0]) if args and isinstance(args[0], list) else []
            if self.isnet(t):
                nets = [a for a in args if isinstance(a, Cell)]
                if len(nets) == 1:
                    return Cell(nets[0].net)
                if not n.get('args'):
                    return Cell(EMPTY)
                sy = [a[1] for a in args if isinstance(a, tuple) and a[:1] == ('str',)]
                if not nets and len(sy) in (1, 2) and q.endswith('HfstTransducer'):
                    return Cell(('sym', sy[0], sy[-1]))
                raise Unknown('constructor %s' % q)
            if len(args) == 1:
                return args[0]
            return None
        if nm in self.noop:
            cells = ([recv] if isinstance(recv, Cell) else []) + [a for a in args if isinstance(a, Cell)]
            if len(cells) == 2 and not isinstance(recv, Cell) and (t == 'void' or t == ''):
                # from one into the other
                cells[1].net = cells[0].net
                return None
            if not cells:
                return None
            # a method that works on its own object gives that object back, a function makes a new one
            return cells[0] if self.inplace else Cell(cells[0].net)
        g = self.P.fns.get(n.get('u'))
        if g is not None and g.cls == self.cls and g.body is not None and (self.isnet(g.ret or '') or any(isinstance(a, Cell) for a in args)):
            if not self.isnet(g.ret or '') and not self.relevant(g.body):
                return None
            if g.body is not None and self.isnet(g.ret or ''):
                return self.run(g, args, recv if not n.get('st') else None)
            if (n.get('cm') or recv is None) and not any(isinstance(a, Cell) and (n.get('pm') or '')[i:i + 1] != 'c' for i, a in enumerate(args)):
                return None
            raise Unknown('call of %s' % nm)
        if self.isnet(t):
            raise Unknown('call of %s' % nm)
        return None
