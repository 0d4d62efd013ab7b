#!/usr/bin/env python3
"""C13: command-line options: what a tool documents it accepts, and short and long form of an option mean the same."""
import sys, os, glob, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import hf, chk
from absint import short
from concurrent.futures import ThreadPoolExecutor

# templates and sources that are not part of any program
TEMPLATES = {'tools/src/hfst-binary-tool.cc', 'tools/src/hfst-unary-tool.cc', 'tools/src/hfst-preprocess-for-optimized-lookup-format.cc',
             'tools/src/hfst-getopt.cc'}
ARG = {0: 'no', 1: 'a required', 2: 'an optional'}


def const(n):
    if n is None:
        return None
    if n.get('k') == 'str':
        return n['v']
    if 'v' in n and type(n['v']) in (int, bool):
        return int(n['v'])
    if n.get('k') == 'cast' or 'e' in n and n.get('k') in ('paren', 'icast', 'un') and n.get('op') not in ('*', '&'):
        return const(n['e'])
    return None


def table_rows(init):
    rows = []
    for e in init.get('e', []):
        if e.get('k') != 'list' or len(e.get('e', [])) != 4:
            continue
        a = [const(x) for x in e['e']]
        if isinstance(a[0], str):
            rows.append((a[0], a[1], a[2], a[3], e['l'], e['e'][2]))
    return rows


def tables(fns):
    """long option tables: id -> list of (name, has_arg, flag, val, line)"""
    out = {}
    for f in fns:
        for n in hf.walk(f.body):
            if n.get('k') == 'vardecl' and 'option' in n.get('t', '') and '[' in n.get('t', '') and (n.get('init') or {}).get('k') == 'list':
                out[n['id'] if not isinstance(n['id'], list) else tuple(n['id'])] = table_rows(n['init'])
    return out


def shorts(s):
    out = {}
    i = 0
    while i < len(s):
        c = s[i]
        i += 1
        if c in ':+-' and not out:
            continue
        k = 0
        while i < len(s) and s[i] == ':':
            k += 1
            i += 1
        out[c] = (0, 1, 2)[min(k, 2)]
    return out


def mentions(n, name):
    return any(x.get('k') == 'ref' and x.get('n') == name for x in hf.walk(n))


def doc(P, fn, seen):
    """text printed by a usage function and the helpers it calls, in order"""
    out = []
    if fn.u in seen:
        return out
    seen.add(fn.u)
    for n in hf.walk(fn.body):
        if n.get('k') == 'str':
            out.append((n['v'], fn.file, n['l']))
        elif n.get('k') == 'call' and n.get('u') in P.fns and n['u'] not in seen:
            out += doc(P, P.fns[n['u']], seen)
    return out


LINE = re.compile(r'^\s*(?:-(\w)(?:[ =]?[A-Z]\w*)?,?\s+)?--([A-Za-z][\w-]*)(\[=?[^\]]*\]|=\S+| [A-Z][A-Z0-9_]*\b)?')
SHORTONLY = re.compile(r'^\s+-(\w)(?:,|\s\s)')


def cases(sw):
    """case label -> (statement list up to the leaving statement, is default group)"""
    groups = []
    for x in hf.walk(sw):
        pass
    return groups


def analyse(c, rel, P, common, stats):
    fns = [f for f in P.fns.values()]
    own = [f for f in fns if f.file.endswith(rel) or rel in f.file]
    tool = os.path.basename(rel)[:-3]
    for f in own:
        def ob(rule, site, good, msg='', file=None, line=None):
            c.obligation(rule, site, good, msg, file, line, key='%s|%s|%s' % (rule, site, msg))
        calls = [n for n in hf.walk(f.body) if n.get('k') == 'call' and short(n.get('fn', '')) in ('getopt_long', 'hfst_getopt_long', 'getopt_long_only')]
        if not calls:
            continue
        tb = tables(fns)
        for cl in calls:
            sstr = const(cl['args'][2])
            tid = cl['args'][3].get('id')
            tid = tuple(tid) if isinstance(tid, list) else tid
            rows = tb.get(tid)
            gl = P.globs.get(cl['args'][3].get('n')) if rows is None else None
            if gl and (gl.get('init') or {}).get('k') == 'list':
                rows = table_rows(gl['init'])
            if sstr is None or rows is None:
                c.undecide('options', rel, 'option table not constant')
                continue
            stats['tools'] += 1
            sh = shorts(sstr)
            # the switch over the result
            sws = [n for n in hf.walk(f.body) if n.get('k') == 'switch']
            sw = max(sws, key=lambda s: sum(1 for x in hf.walk(s) if x.get('k') == 'case')) if sws else None
            if sw is None:
                c.undecide('options', rel, 'no switch')
                continue
            groups = switch_groups(sw)
            label = {}
            for labs, body in groups:
                for l in labs:
                    label.setdefault(l, (labs, body))
            # options decided elsewhere: the parsed value is compared or handed to a function
            rv = result_var(f, cl)
            lost = False
            for n in hf.walk(f.body):
                if n.get('k') == 'bin' and n.get('op') in ('==', '!='):
                    for x, y in ((n['a'], n['b']), (n['b'], n['a'])):
                        if isvar(x, rv) and const(y) is not None:
                            label.setdefault(const(y), ([const(y)], [n]))
                elif n.get('k') == 'call' and any(isvar(a, rv) for a in n.get('args', [])) and n is not cl:
                    g = P.fns.get(n.get('u'))
                    if g is None:
                        if not n.get('fn', '').startswith(('f', 'p', 'std::', 's', 'error', 'hfst_')):
                            lost = True
                        continue
                    for m in hf.walk(g.body):
                        if m.get('k') == 'switch':
                            for labs, body in switch_groups(m):
                                for l in labs:
                                    if l not in label or l == 'default':
                                        label[l] = (labs, body)
                                groups.append((labs, body))
                        elif m.get('k') == 'bin' and m.get('op') in ('==', '!='):
                            for y in (m['a'], m['b']):
                                if const(y) is not None:
                                    label.setdefault(const(y), ([const(y)], [m]))
            if lost:
                c.undecide('options', rel, 'parsed option handed to an unknown function')
                continue
            deflt = label.get('default')
            long = {}
            for name, ha, fl, val, ln, fle in rows:
                long[name] = (ha, val, ln, fl == 0)
            # 1 same letter, same meaning
            for name, (ha, val, ln, nofl) in long.items():
                if not nofl:
                    continue
                ch = chr(val) if isinstance(val, int) and 32 < val < 127 else None
                site = '%s --%s' % (tool, name)
                if val not in label or (deflt and label[val][1] is deflt[1] and deflt[0] == label[val][0] and 'default' in label[val][0]):
                    ob('long-handled', site, False, 'the option is accepted but no case handles it (value %s)' % (ch or val), f.file, ln)
                else:
                    ob('long-handled', site, True)
                if ch in sh:
                    ob('same-argument', site, sh[ch] == ha, '-%s takes %s argument, --%s takes %s argument' % (ch, ARG[sh[ch]], name, ARG.get(ha)), f.file, ln)
            for ch, k in sh.items():
                site = '%s -%s' % (tool, ch)
                if ord(ch) not in label:
                    ob('short-handled', site, False, 'the option is accepted but no case handles it', f.file, cl['l'])
                else:
                    ob('short-handled', site, True)
            # an option does what its case says and not also what the next case says
            for i, (labs, body) in enumerate(groups):
                if i + 1 < len(groups) and body and completes(body[-1] if body else None) and groups[i + 1][1]:
                    ob('one-case', '%s %s' % (tool, '/'.join(chr(l) if isinstance(l, int) and 32 < l < 127 else str(l) for l in labs)), False,
                       'the case runs into the next one', f.file, body[-1].get('l'))
                elif body:
                    ob('one-case', '%s %s' % (tool, labs), True)
            # 2 optarg is only used where an argument is required, or its presence is tested
            for labs, body in groups:
                use = [n for st in body for n in hf.walk(st) if n.get('k') == 'ref' and n.get('n') == 'optarg']
                if not use:
                    continue
                tested = any(istest(n) for st in body for n in hf.walk(st))
                for l in labs:
                    if l in ('default', ord('?'), ord(':')):
                        continue
                    src = []
                    if isinstance(l, int) and 32 < l < 127 and chr(l) in sh:
                        src.append(('-' + chr(l), sh[chr(l)]))
                    src += [('--' + n, v[0]) for n, v in long.items() if v[1] == l]
                    for nm, ha in src:
                        site = '%s %s' % (tool, nm)
                        if ha == 1 or tested and ha == 2:
                            ob('argument-present', site, True)
                        elif ha == 0 and not tested or ha == 2 and not tested:
                            ob('argument-present', site, False, 'the argument is used although the option takes %s argument' % ARG[ha], f.file, use[0]['l'])
            # 3 documentation
            us = [g for g in fns if g.name in ('print_usage', 'usage', 'print_help', 'print_usage_message')]
            txt = []
            seen = set()
            for u in us:
                txt += doc(common_view(P, common), u, seen)
            full = ''.join(t for t, _, _ in txt)
            base = us[0] if us else None
            docd = set()
            for line in full.split('\n'):
                m = LINE.match(line)
                if not m:
                    continue
                s, l, a = m.groups()
                stats['documented'] += 1
                site = '%s documents %s--%s' % (tool, '-%s, ' % s if s else '', l)
                docd.add(l)
                ha = 2 if a and a.startswith('[') else 1 if a else 0
                if l not in long:
                    # getopt_long accepts an unambiguous abbreviation
                    ab = [v for n, v in long.items() if n.startswith(l)]
                    if ab and all(x[:2] == ab[0][:2] for x in ab):
                        long[l] = ab[0]
                if l not in long:
                    ob('documented-accepted', site, False, 'the tool does not accept --%s' % l, base.file, base.l)
                    continue
                ob('documented-accepted', site, True)
                lha, val, ln, nofl = long[l]
                if s:
                    if s not in sh:
                        ob('documented-accepted', site, False, 'the tool does not accept -%s' % s, base.file, base.l)
                    elif val != ord(s) and not same_case(label, val, ord(s)):
                        ob('documented-accepted', site, False, '-%s and --%s are documented as one option but select different cases' % (s, l), f.file, ln)
                if ha == 1 and lha == 0 or ha == 0 and lha == 1:
                    ob('documented-argument', site, False, 'documented with %s argument, accepted with %s argument' % (ARG[ha], ARG[lha]), f.file, ln)
                else:
                    ob('documented-argument', site, True)


NORETURN = ('exit', 'abort', 'error', 'hfst_error')


def completes(n):
    if n is None:
        return True
    k = n.get('k')
    if k in ('break', 'return', 'continue', 'throw', 'goto'):
        return False
    if k == 'call':
        return short(n.get('fn', '')) not in NORETURN
    if k in ('block', 'compound'):
        return completes(n['s'][-1]) if n.get('s') else True
    if k == 'if':
        e = n.get('e') if isinstance(n.get('e'), dict) else n.get('b')
        t = n.get('t') if isinstance(n.get('t'), dict) else n.get('a')
        if t is None or e is None:
            return True
        return completes(t) or completes(e)
    if k in ('while', 'for', 'do', 'switch', 'try'):
        return False       # not judged
    return True


def result_var(f, cl):
    for n in hf.walk(f.body):
        if n.get('k') == 'vardecl' and n.get('init') is not None and any(x is cl for x in hf.walk(n['init'])):
            return n['id']
        if n.get('k') == 'asg' and any(x is cl for x in hf.walk(n['b'])) and n['a'].get('k') == 'ref':
            return n['a'].get('id')
    return None


def isvar(n, rv):
    while isinstance(n, dict) and n.get('k') in ('cast', 'paren', 'icast', 'asg'):
        n = n.get('e') or n.get('a')
    return rv is not None and isinstance(n, dict) and n.get('k') == 'ref' and n.get('id') == rv


def istest(n):
    """optarg compared with NULL or used as a condition"""
    if n.get('k') in ('if', 'cond', 'while') and n.get('c') is not None:
        return any(x.get('k') == 'ref' and x.get('n') == 'optarg' and tested_in(n['c'], x) for x in hf.walk(n['c']))
    return False


def tested_in(c, ref):
    # reference itself is compared or is the condition, not merely passed to a function
    st = [c]
    while st:
        x = st.pop()
        if x is ref:
            return True
        if x.get('k') == 'call':
            continue
        for k in ('a', 'b', 'e', 'c'):
            if isinstance(x.get(k), dict):
                st.append(x[k])
    return False


def same_case(label, a, b):
    return a in label and b in label and label[a][1] is label[b][1]


def switch_groups(sw):
    """[(labels, statements)]: fall-through of bare labels merges them"""
    groups = []
    labs, body = [], []

    def addlabel(n):
        nonlocal labs, body
        if body:
            groups.append((labs, body))
            labs, body = [], []
        if n['k'] == 'default':
            labs.append('default')
        else:
            labs.append(const(n.get('c')))

    def stmt(n):
        if n.get('k') in ('case', 'default'):
            addlabel(n)
            if isinstance(n.get('s'), dict):
                stmt(n['s'])
            elif isinstance(n.get('s'), list):
                for x in n['s']:
                    stmt(x)
        else:
            body.append(n)
    b = sw['b'] if isinstance(sw.get('b'), dict) else sw
    for x in b.get('s', []):
        stmt(x)
    if labs:
        groups.append((labs, body))
    return groups


class View:
    pass


def common_view(P, C):
    v = View()
    v.fns = dict(C.fns)
    v.fns.update(P.fns)
    return v


def check(c):
    R = hf.REPO + '/'
    files = sorted({f[len(R):] for pat in ('tools/src/*.cc', 'tools/src/parsers/*.cc', 'tools/src/hfst-proc/*.cc', 'tools/src/hfst-tagger/src/*.cc',
                                           'tools/src/hfst-twolc/src/*.cc') for f in glob.glob(R + pat)
                    if 'getopt' in open(f, errors='replace').read()} - TEMPLATES)
    hf.ensure_tool()
    hf._regen_grammars()

    def pre(f):
        try:
            hf.extract(f)
        except hf.AnalysisBroken:
            pass
    hf._hdr_hash()
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(pre, files + ['tools/src/hfst-program-options.cc']))
    C = hf.Program(['tools/src/hfst-program-options.cc'])
    stats = dict(tools=0, documented=0)
    for rel in files:
        try:
            P = hf.Program([rel])
        except hf.AnalysisBroken as ex:
            c.undecide('options', rel, str(ex)[:80])
            continue
        analyse(c, rel, P, C, stats)
    c.floor('tools analysed', stats['tools'], 50)
    c.floor('documented options', stats['documented'], 400)


chk.main('C13', check, 'for every tool the option string, the long option table, the switch over the parsed option and the usage text (all read from the '
         'resolved syntax tree) are compared: every accepted option has a case, short and long form agree, an argument is used only where one is '
         'required or tested, and every documented option is accepted as documented')
