"""What a function does to the outside: calls with the named things they are given, and
assignments to named fields, each with the conditions it depends on."""
import re, json, os
import ir, scope, guards, ginv
from par import pmap

PASSES = 'function(early-cse<memssa>,instsimplify,simplifycfg,early-cse<memssa>)'
SKIPCALL = re.compile(r'^(llvm\.|e_|__logger|logger_|__e_|e_trace|e_is_traced|__assert|assert_|_?_?sigsetjmp|abort$|__VERIFIER|'
                      r'core_version|snprintf|vsnprintf|sb_adds|isnprintf|fprintf|printf|ifmt|t_fmt|mp_fmt|lstr_fmt|_Block_|'
                      r'strlen|memcmp|strcmp|mem_stack_(push|pop)|mem_stack_pool_(push|pop|protect|try_reset)|mem_pool_is_enabled|t_scope|t_pool|lp_gettv|'
                      r'__errno_location|proctimer|qhash_(get|scan|safe|iter)|mem_tool|prctl|debug_stack_)')


def base_name(s):
    """a thing by its name: field, global or kind of argument; None if it has none"""
    s = ginv.depart(s)
    m = s.lstrip('*&')
    if '~' in s or '?' in s or 'gep(' in s or m.startswith(('L:', 'K', 'P')) or "'" in s:
        return None
    if m.startswith('A:') or re.search(r'\bA:', m):
        return None
    return m


def const_of(o):
    if type(o) is tuple:
        if o[0] == 'i':
            return o[1]
        if o[0] == 'null':
            return 0
    return None


def bit_sets(fn, v, addr_tok, t):
    """store of bit-fields: [(bits written, value or None)], or None"""
    out, done = [], 0

    def dfn(x):
        return fn.defs.get(x) if type(x) is int and not fn.is_arg(x) else None

    def put(m, c):
        nonlocal done
        m &= ~done
        if m:
            # one entry per field: runs of bits written together stay together
            out.append((m, c if c is None else c & m))
            done |= m
    while True:
        d = dfn(v)
        if d is None:
            return None
        if d.op == 'load':
            return out if out and t.addr(d.ops[0]) == addr_tok else None
        if d.op == 'freeze':
            v = d.ops[0]
        elif d.op == 'and' and const_of(d.ops[1]) is not None:
            put(~const_of(d.ops[1]) & 0xffffffffffffffff, 0)
            v = d.ops[0]
        elif d.op == 'or':
            for a, b in (d.ops, d.ops[::-1]):
                x = dfn(a)
                if x is None or x.op not in ('load', 'and', 'or'):
                    continue
                if x.op == 'and' and const_of(x.ops[1]) is None:
                    continue
                c = const_of(b)
                if x.op == 'and':
                    put(~const_of(x.ops[1]) & 0xffffffffffffffff, c)
                    v = x.ops[0]
                elif c is not None:
                    put(c, c)
                    v = a
                else:
                    return None
                break
            else:
                return None
        else:
            return None


def root(fn, v):
    for _ in range(20):
        if type(v) is not int or fn.is_arg(v):
            return v
        i = fn.defs.get(v)
        if i is None or i.op not in ('getelementptr', 'bitcast'):
            return v
        v = i.ops[0]
    return v


def value(t, v):
    """a value by what it is computed from, or None"""
    if type(v) is not int:
        return None
    A = t.lin(v)
    vec = guards.tokvec(A[0])
    s = '+'.join(('' if k == 1 else '%d*' % k) + r for r, k in sorted(vec.items()))
    if A[1]:
        s += '%+d' % A[1]
    if not ginv.stable(('lin', s, 'eq', 0, '')) or '~' in s or 'L:' in s:
        return None
    return s


ARITH = ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr')


RELEASE = re.compile(r'^(?!http2_|ic_hook|thr_|el_)(mp_ifree|free|ifree|\w*_(wipe|delete|destroy|free|release|deep_clear|unregister|unref))$|'
                     r'^(close|fclose|munmap|closedir|dlclose|unlink|__\w+_wipe)$')


def releases(e):
    """a call that releases something (assigning the empty string releases the former one)"""
    if e[0] != 'call':
        return False
    if e[1] == 'mp_lstr_copy_':
        d = dict(e[2])
        return d.get(2) == '0' and d.get(3) == '0'
    return bool(RELEASE.match(e[1]) or e[1].startswith('*') and RELEASE.search(e[1].split('.')[-1]))


def threshold(a):
    """('T', k): whether it is at least k; ('E', k): whether it is k"""
    if a[2] == 'ge':
        return ('T', a[3])
    if a[2] == 'le':
        return ('T', a[3] + 1)
    return ('E', a[3])


def tkey(a):
    x, k = threshold(a)
    return '%s%d%s' % (x, k, 's' if x == 'T' and k in (0, 1) and len(a) > 4 and a[4] == 's' else '')


def terms(v):
    """the terms of a sum"""
    out, d, cur, i = [], 0, '', 0
    while i < len(v):
        c = v[i]
        if c in '({<[':
            d += 1
        elif c in ')}>]':
            d -= 1
        if c == '+' and d == 0 and not re.match(r'\+\d+(?![\d*])', v[i:]):
            out.append(cur)
            cur = ''
        else:
            cur += c
        i += 1
    return out + [cur]


def partly(a):
    """a test of a sum with some named terms, the others left unnamed"""
    if a[0] != 'lin':
        return None
    keep, rest = [], 0
    for x in terms(a[1]):
        m = re.match(r'(-?\d+)\*(.*)$', x, re.S)
        k, x = (int(m.group(1)), m.group(2)) if m else (1, x)
        if ginv.stable(('lin', x, 'eq', 0)) and '~' not in x and re.search(r'\w\.\w|C:|G:|A:', x):
            keep.append((x, k))
        else:
            rest += 1
    if not keep or not rest:
        return None
    keep.sort()
    q, k = threshold(a)
    if keep[0][1] < 0:
        keep = [(x, -c) for x, c in keep]
        k = 1 - k if q == 'T' else -k
    return ('near', '~%+d ' % rest + ' '.join('%d*%s' % (c, x) for x, c in keep), '%s%d' % (q, k))


def tests(fn, t, dead, lex, out):
    ext = extrema(fn)
    for b in range(len(fn.bbs)):
        if b in dead or b and not fn.preds[b]:
            continue
        x = fn.bbs[b][-1]
        cs = []
        if x.op == 'br' and x.ops and x.x[0] != x.x[1] and not (set(x.x) & dead) and x.ops[0] not in ext:
            cs = guards.atoms(t, x.ops[0], True) or []
            cs = list(cs) + list(guards.atoms(t, x.ops[0], False) or [])
        elif x.op == 'switch':
            cs = [frozenset([guards.sw_atom(t, x, c[0], 'eq')]) for c in x.x[1:]]
        for i in fn.bbs[b]:
            # conditions that choose a value
            if i.op == 'select' and type(i.ops[0]) is int and i.ops[0] not in ext or i.op in ('and', 'or', 'phi') and i.ty == 'i1':
                c2 = []
                for v in ([o for o in i.ops if type(o) is int] if i.op == 'phi' else [i.id] if i.op != 'select' else [i.ops[0]] if i.ty != 'i1' else [i.ops[0], i.id]):
                    c2 += list(guards.atoms(t, v, True) or []) + list(guards.atoms(t, v, False) or [])
                if b in lex:
                    for a in {a for c in c2 for a in c}:
                        if a[0] == 'lin' and ginv.stable(a) and '~' not in a[1] and re.search(r'\w\.\w|C:|G:|A:', a[1]):
                            out.setdefault(('test', a[1], tkey(a)), {}).setdefault(frozenset(), i.where())
                else:
                    cs = list(cs) + c2
        for c in cs:
            for a in c:
                if a[0] != 'lin':
                    continue
                if b in lex:
                    p = partly(('lin', ginv.depart(a[1])) + tuple(a[2:]))
                    if p:
                        out.setdefault(p, {}).setdefault(frozenset(), x.where())
                    continue
                if not ginv.stable(a) or not re.search(r'\w\.\w|C:|G:|A:', a[1]):
                    p = partly(a)
                    if p:
                        out.setdefault(p, {}).setdefault(frozenset(), x.where())
                        continue
                    a = ginv.norm(a)
                    if a is None or a[1] in ('~', '~-~') and abs(a[3]) < 2:
                        continue
                if '~' in a[1]:
                    k = threshold(a)
                    out.setdefault(('near', a[1], '%s%d' % k), {}).setdefault(frozenset(), x.where())
                else:
                    out.setdefault(('test', a[1], tkey(a)), {}).setdefault(frozenset(), x.where())


def starts(fn, dead, out):
    """the constants loops count from"""
    n = {}
    for b in range(len(fn.bbs)):
        if b in dead:
            continue
        for i in fn.bbs[b]:
            if i.op != 'phi':
                break
            if len(i.ops) < 2:
                continue
            c0, step = None, False
            for o, p in zip(i.ops, i.x):
                c = const_of(o)
                if fn.dominates(b, p):
                    d = fn.defs.get(o) if type(o) is int and not fn.is_arg(o) else None
                    step = step or d is not None and d.op in ('add', 'sub') and i.id in d.ops
                elif c is not None:
                    c0 = c
            if step and c0 is not None and -2 <= c0 <= 8:
                n[c0] = n.get(c0, 0) + 1
    for c, k in n.items():
        out[('loops', c, k)] = {frozenset(): ''}


def numbers(fn, dead, out):
    for b in range(len(fn.bbs)):
        if b in dead or b and not fn.preds[b]:
            continue
        for i in fn.bbs[b]:
            if i.op in ARITH:
                for o in i.ops:
                    c = const_of(o)
                    if c is not None:
                        c = min(abs(c), abs(~c)) if i.op in ('and', 'or', 'xor') else abs(c)
                        if c >= 10 and c not in (16, 24, 31, 32, 40, 48, 56, 63, 64):
                            out.setdefault(('num', c, ''), {}).setdefault(frozenset(), i.where())


PRED = {'slt': ('T', 0, 's'), 'sge': ('T', 0, 's'), 'sgt': ('T', 1, 's'), 'sle': ('T', 1, 's'),
        'ult': ('T', 0, 'u'), 'uge': ('T', 0, 'u'), 'ugt': ('T', 1, 'u'), 'ule': ('T', 1, 'u'),
        'eq': ('E', 0, ''), 'ne': ('E', 0, '')}


def arith(op, c):
    """one name for the ways to write the same operation with a constant"""
    if c > 0 and c & (c - 1) == 0:
        k = c.bit_length() - 1
        if op == 'mul':
            return 'shl', k
        if op == 'udiv':
            return 'lshr', k
        if op == 'urem':
            return 'and', c - 1
    if op in ('add', 'sub'):
        return 'add', abs(c)
    if op in ('and', 'or', 'xor'):
        return op, min(abs(c), abs(~c))
    return op, c


def sig(fn, v, depth=1):
    if type(v) is not int:
        return 'c'
    if fn.is_arg(v):
        return 'arg'
    d = fn.defs.get(v)
    if d is None:
        return '?'
    if d.op in ('zext', 'sext', 'trunc', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr'):
        return sig(fn, d.ops[0], depth)
    if d.op in ('call', 'invoke'):
        return 'call ' + (d.callee or '*')
    if d.op in ('phi', 'alloca', 'select'):
        return d.op
    if d.op == 'load' and depth:
        return 'load(%s)' % sig(fn, d.ops[0], 0)
    if d.op == 'getelementptr' and depth:
        return 'gep(%s)' % sig(fn, d.ops[0], 0)
    return d.op


def strip(fn, v):
    for _ in range(4):
        d = fn.defs.get(v) if type(v) is int and not fn.is_arg(v) else None
        if d is None or d.op not in ('zext', 'sext', 'trunc', 'freeze'):
            break
        v = d.ops[0]
    return v if type(v) is int else ('k', const_of(v))


def minmax(fn, d):
    """(the comparison, 'min' or 'max', the constant) of a value that is the smaller or the larger of two"""
    if d.op == 'select':
        c, x, y = d.ops
    elif d.op == 'phi' and len(d.ops) == 2 and d.x[0] != d.x[1]:
        (x, p), (y, q) = zip(d.ops, d.x)
        z = None
        for (o1, b1), (o2, b2) in (((x, p), (y, q)), ((y, q), (x, p))):
            # b1 branches to b2 and to the merge, or to two blocks that merge
            for br in {b1} | set(fn.preds[b1]):
                if fn.bbs[br][-1].op != 'br' or not fn.bbs[br][-1].ops:
                    continue
                u, w = fn.bbs[br][-1].x
                side = lambda b, e: e == b and set(fn.preds[b]) == {br} or e == d.bb and b == br
                if side(b1, u) and side(b2, w):
                    z = (fn.bbs[br][-1].ops[0], o1, o2)
        if z is None:
            return None
        c, x, y = z
    else:
        return None
    i = fn.defs.get(c) if type(c) is int and not fn.is_arg(c) else None
    if i is None or i.op != 'icmp':
        return None
    p = i.x if type(i.x) is str else i.x.get('p') or i.x.get('pred')
    if p in ('eq', 'ne'):
        return None
    a, b = strip(fn, i.ops[0]), strip(fn, i.ops[1])
    x, y = strip(fn, x), strip(fn, y)
    k = [v[1] for v in (a, b) if type(v) is tuple]
    if k:
        # x < 5 ? x : 5 is x <= 4 ? x : 5
        j = 0 if type(a) is tuple else 1
        o = (a, b)[1 - j]
        if o not in (x, y) or type(o) is tuple:
            return None
        r = y if o == x else x
        if type(r) is not tuple or r[1] is None or k[0] is None or abs(r[1] - k[0]) > 1 or -2 < r[1] < 2:
            return None
        if j == 0:
            a, b, p = b, a, {'l': 'g', 'g': 'l'}[p[1]].join((p[0], p[2]))
        lt = p[1] == 'l'
        return i, 'min' if lt == (x == a) else 'max', r[1]
    if a == b or {a, b} != {x, y}:
        return None
    return i, 'min' if (p[1] == 'l') == (x == a) else 'max', ''


def extrema(fn):
    """comparisons that only choose the smaller or the larger of two values"""
    r = {}
    for b in fn.bbs:
        for d in b:
            if d.op in ('phi', 'select'):
                m = minmax(fn, d)
                if m:
                    r[m[0].id] = m[1:]
    return r


def bags(fn, t, dead, out):
    """how often it computes and compares with each constant, on values that have no name"""
    n = {}
    ext = extrema(fn)

    def add(*k):
        n[k] = n.get(k, 0) + 1
    for k in ext.values():
        add('mm', *k)
    for b in range(len(fn.bbs)):
        if b in dead or b and not fn.preds[b]:
            continue
        for i in fn.bbs[b]:
            if i.op in ARITH:
                if i.ty == 'i1':
                    continue
                c = const_of(i.ops[1])
                if c is None:
                    c = const_of(i.ops[0])
                if c is None:
                    add('op', i.op, '')
                else:
                    op, k = arith(i.op, c)
                    if op == 'add' and k == 1:
                        add('inc', '', c if i.op == 'add' else -c)
                    elif not (op == 'add' and k < 1 or op == 'xor' and k <= 1):
                        add('num', op, k)
            elif i.op == 'icmp' and i.id not in ext:
                p = i.x if type(i.x) is str else i.x.get('p') or i.x.get('pred')
                q, d, sg = PRED[p]
                c = const_of(i.ops[1])
                if c is not None:
                    k = c + d
                    if q == 'T' and sg == 'u' and k == 1:
                        q, k, sg = 'E', 0, ''
                    add('cmp', '%s%s' % (q, sg), k)
                elif q == 'T':
                    a, b2 = sig(fn, i.ops[0]), sig(fn, i.ops[1])
                    if a != b2:
                        # lt(a, b), or lt(b, a)
                        o = d == 0
                        if a > b2:
                            a, b2, o = b2, a, not o
                        add('lt', '%s %s %s' % (sg, a, b2), int(o))
            elif i.op == 'switch':
                for c in i.x[1:]:
                    if type(c[0]) is int:
                        add('cmp', 'E', c[0])
            elif i.op == 'store':
                c = const_of(i.ops[0])
                a = t.addr(i.ops[1])
                if c is not None and i.x['s'] <= 2 and base_name(a) is None:
                    add('put', i.x['s'], c)
    for k, v in n.items():
        out[('bag',) + k + (v,)] = {frozenset(): ''}


def bag_diff(old, new):
    a = {e[1:4]: e[4] for e in old if e[0] == 'bag'}
    b = {e[1:4]: e[4] for e in new if e[0] == 'bag'}
    lost, gained = {}, {}
    for k in set(a) | set(b):
        d = b.get(k, 0) - a.get(k, 0)
        if d < 0:
            lost[k] = -d
        elif d > 0:
            gained[k] = d
    if not lost:
        return
    if not gained:
        for k in sorted(lost, key=str):
            if k in b or k[0] == 'lt' or k[0] == 'inc' and k[2] != -1 or k[0] == 'cmp' and -2 < k[2] < 2 or k[0] == 'num' and k[2] < 2:
                continue
            if k[0] == 'cmp' and k[1][0] == 'E' and any(
                    bin((x ^ k[2]) & 0xffffffffffffffff).count('1') == 1
                    for x in [0] + [y[2] for y in a if y[0] == 'cmp' and y != k]):
                continue        # two equalities that one mask decides
            yield 'missing', ('bag',) + k, 'no longer %s' % show(('bag',) + k + (lost[k],)), ''
        return
    # nothing but constants replaced by others
    gs = {}
    for k, d in gained.items():
        gs.setdefault(k[:2], []).append((k, d))
    ls = {}
    for k, d in lost.items():
        ls.setdefault(k[:2], []).append((k, d))
    res = []
    if set(gs) == set(ls) and all(len(v) == 1 for v in gs.values()) and all(len(v) == 1 for v in ls.values()):
        for g, ((k, d),) in gs.items():
            (k0, d0), = ls[g]
            if d != d0:
                return
            res.append((k0, k))
    elif len(lost) == 1 and len(gained) == 1:
        (k0, d0), = lost.items()
        (k, d), = gained.items()
        if d0 != d or k0[0] != k[0] or k0[0] not in ('num', 'op', 'cmp', 'mm') or \
                k0[0] == 'cmp' and (k0[2] == 0 and k[1] == 'E' or k[2] == 0 and k0[1] == 'E' or k0[1][1:] == 'u' or k[1][1:] == 'u'):
            return
        res.append((k0, k))
    for k0, k in res:
        yield 'bound', ('bag',) + k0, 'now %s where it %s' % (show(('bag',) + k + (1,)), show(('bag',) + k0 + (1,))), ''


def merged(fn, t, v, i, ctx_of, out, mk):
    """what a value merged from several ones can be, and when"""
    d = fn.defs.get(v) if type(v) is int and not fn.is_arg(v) else None
    while d is not None and d.op in ('zext', 'sext', 'trunc'):
        v = d.ops[0]
        d = fn.defs.get(v) if type(v) is int and not fn.is_arg(v) else None
    if d is None or d.op not in ('phi', 'select'):
        return False
    return returns(fn, t, i, ctx_of, out, v, mk)


def returns(fn, t, i, ctx_of, out, v0=None, mk=lambda x: ('ret', x, '')):
    seen, work = set(), [(i.ops[0] if v0 is None else v0, i.bb, None)]
    got = False
    while work:
        v, b, s = work.pop()
        if (v, b) in seen:
            continue
        seen.add((v, b))
        d = fn.defs.get(v) if type(v) is int and not fn.is_arg(v) else None
        if d is not None and d.op == 'phi':
            mm = minmax(fn, d)
            for o, p in zip(d.ops, d.x):
                work.append((o, d.bb, None) if mm and mm[2] == '' else (o, p, d.bb))
            continue
        if d is not None and d.op in ('zext', 'sext', 'trunc', 'freeze', 'bitcast'):
            work.append((d.ops[0], b, s))
            continue
        extra = set()
        if s is not None and len(set(fn.succs[b])) > 1:
            cs = guards.edge_conds(t, fn, b, s)
            if cs:
                extra = frozenset.intersection(*cs)
        c0 = ctx_of(b) | set(extra)
        alts = [(v, c0)]
        if d is not None and d.op == 'select':
            alts = []
            mm = minmax(fn, d)
            for k, pos in ((1, True), (2, False)):
                cs = None if mm and mm[2] == '' else guards.atoms(t, d.ops[0], pos)
                alts.append((d.ops[k], c0 | (frozenset.intersection(*cs) if cs else set())))
        elif d is not None and d.op == 'icmp' and d.ty == 'i1':
            alts = []
            for k, pos in ((1, True), (0, False)):
                cs = guards.atoms(t, v, pos)
                alts.append((('i', k, 1), c0 | (frozenset.intersection(*cs) if cs else set())))
        for v2, c in alts:
            x = const_of(v2)
            if x is None:
                x = value(t, v2)
                if x is None and mk(None)[0] != 'set':
                    continue
            c = frozenset(a for a in c if ginv.stable(a))
            got = True
            out.setdefault(mk(x), {}).setdefault(c, i.where())
    return got


def orders(fn, dead, sites, cbs, out):
    """effects always made before, or always after, a call through a pointer"""
    if not cbs:
        return
    n = len(fn.bbs)
    reach = []
    for b in range(n):
        seen, st = set(), [x for x in fn.succs[b] if x not in dead]
        while st:
            x = st.pop()
            if x not in seen:
                seen.add(x)
                st += [y for y in fn.succs[x] if y not in dead]
        reach.append(seen)

    def after(a, b):
        """b may come after a"""
        return b[0] in reach[a[0]] or a[0] == b[0] and a[1] < b[1]
    for cb, cs in cbs.items():
        for e, es in sites.items():
            if e[0] == 'call' and e[1] == cb:
                continue
            pre = any(after(s, c) for s in es for c in cs)
            post = any(after(c, s) for s in es for c in cs)
            if pre != post:
                k = '%s %s' % (e[1], e[2] if e[0] == 'set' else '')
                out[('order', cb, ('before ' if pre else 'after ') + e[0] + ' ' + k)] = {frozenset(): ''}


def sure_wider(fn, mod, e, lost):
    """a path on which a lost condition does not hold reaches the effect"""
    where = {}
    effects(fn, mod, where)
    sites = set(where.get(e, ()))
    t = guards.Tok(fn, mod)
    lc = guards.loop_conds(fn)
    lex = guards.loop_exits(fn)
    n = len(fn.bbs)

    def back(p, b):
        return fn.dominates(b, p)

    def known(v, env, depth=0):
        c = const_of(v) if type(v) is tuple else None
        if c is not None:
            return c
        if type(v) is not int or fn.is_arg(v) or depth > 6:
            return None
        if v in env:
            return env[v]
        d = fn.defs.get(v)
        if d is None:
            return None
        if d.op in ('zext', 'sext', 'freeze', 'trunc'):
            x = known(d.ops[0], env, depth + 1)
            return x & 1 if x is not None and d.op == 'trunc' and d.ty == 'i1' else x
        if d.op == 'icmp':
            x, y = known(d.ops[0], env, depth + 1), known(d.ops[1], env, depth + 1)
            if x is None or y is None:
                return None
            p = d.x if type(d.x) is str else d.x.get('p') or d.x.get('pred')
            if p[0] == 'u':
                x, y = x & (1 << 64) - 1, y & (1 << 64) - 1
            return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p if p in ('eq', 'ne') else p[1:]])
        if d.op in ('and', 'or', 'xor'):
            x, y = known(d.ops[0], env, depth + 1), known(d.ops[1], env, depth + 1)
            if d.op == 'and' and (x == 0 or y == 0):
                return 0
            if d.op == 'or' and d.ty == 'i1' and (x in (1, -1) or y in (1, -1)):
                return 1
            if x is None or y is None:
                return None
            return {'and': x & y, 'or': x | y, 'xor': x ^ y}[d.op]
        if d.op == 'select':
            c = known(d.ops[0], env, depth + 1)
            return None if c is None else known(d.ops[1 if c else 2], env, depth + 1)
        return None
    ec = {}

    def edge(p, b):
        if (p, b) not in ec:
            cs = guards.edge_conds(t, fn, p, b) if len(set(fn.succs[p])) > 1 and p not in lex else None
            ec[p, b] = frozenset.intersection(*cs) if cs else frozenset()
        return ec[p, b]
    for x in lost:
        if x[0] != 'lin':
            continue
        nx = {q[:4] for q in neg(x)}
        x4 = tuple(x[:4])
        work = []
        for p in range(n):
            if len(set(fn.succs[p])) < 2 or p and not fn.preds[p]:
                continue
            for b in set(fn.succs[p]):
                if back(p, b):
                    continue
                if any(tuple(a[:4]) in nx for a in edge(p, b)):
                    work.append((p, b, {}))
                elif p not in lex:
                    # one of several conditions, which may not be this one
                    cs = [any(tuple(a[:4]) == x4 for a in c) for c in guards.edge_conds(t, fn, p, b) or ()]
                    if any(cs) and not all(cs):
                        work.append((p, b, {}))
        if len({w[0] for w in work}) != 1:
            continue        # maybe about different things of the same kind
        seen = set()
        while work:
            p, b, env = work.pop()
            env = dict(env)
            for i in fn.bbs[b]:
                if i.op != 'phi':
                    break
                v = None
                for o, q in zip(i.ops, i.x):
                    if q == p:
                        v = known(o, env)
                if v is None:
                    env.pop(i.id, None)
                else:
                    env[i.id] = v
            key = (b, tuple(sorted(env.items())))
            if key in seen:
                continue
            seen.add(key)
            if len(seen) > 20000:
                return False
            if b in sites:
                return True
            z = fn.bbs[b][-1]
            succ = set(fn.succs[b])
            if z.op == 'br' and z.ops:
                c = known(z.ops[0], env)
                if c is not None:
                    succ = {z.x[0] if c else z.x[1]}
            for q in succ:
                if back(b, q) or any(tuple(a[:4]) == x4 for a in edge(b, q)):
                    continue
                work.append((b, q, env))
    return False


def effects(fn, mod, where=None):
    t = guards.Tok(fn, mod)
    idom = fn.doms()
    lex = guards.loop_exits(fn)
    ctxc = {}

    dead = set()
    for b in range(len(fn.bbs)):
        if fn.bbs[b][-1].op == 'unreachable':
            dead.add(b)
    ch = True
    while ch:
        ch = False
        for b in range(len(fn.bbs)):
            if b not in dead and fn.succs[b] and all(x in dead for x in fn.succs[b]):
                dead.add(b)
                ch = True

    def edge(p, b):
        if p in lex or not any(x != b and x not in dead for x in fn.succs[p]):
            return frozenset()
        cs = guards.edge_conds(t, fn, p, b)
        return frozenset.intersection(*cs) if cs else frozenset()

    # conditions that hold on every path to a block
    order, seen, st = [], {0}, [(0, iter(fn.succs[0]))]
    while st:
        x, it = st[-1]
        for y in it:
            if y not in seen and y not in dead:
                seen.add(y)
                st.append((y, iter(fn.succs[y])))
                break
        else:
            order.append(x)
            st.pop()
    order.reverse()
    lc = guards.loop_conds(fn)
    ec = {}
    ctxc[0] = frozenset()
    ch = True
    while ch:
        ch = False
        for x in order:
            if x == 0:
                continue
            r = None
            for q in set(fn.preds[x]):
                if q not in ctxc:
                    continue
                if (q, x) in lc:
                    c = ctxc.get(lc[q, x], frozenset())
                else:
                    if (q, x) not in ec:
                        ec[q, x] = edge(q, x)
                    c = ctxc[q] | ec[q, x]
                r = c if r is None else r & c
            if r is not None and ctxc.get(x) != r:
                ctxc[x] = r
                ch = True

    def ctx_of(b):
        return ctxc.get(b, frozenset())

    out = {}
    objs = {}
    sret = bool(fn.args) and len(fn.args[0]) > 2 and fn.args[0][2] == 'sret'

    sites, cbs, pos = {}, {}, {}
    for b in range(len(fn.bbs)):
        for k, i in enumerate(fn.bbs[b]):
            pos[id(i)] = (b, k)

    def put(e, i, extra=()):
        if e[0] in ('call', 'set'):
            sites.setdefault((e[0], e[1], e[2] if e[0] == 'set' else ''), []).append(pos[id(i)])
        if where is not None:
            where.setdefault(e, []).append(i.bb)
        c = frozenset(a for a in ctx_of(i.bb) | set(extra) if ginv.stable(a))
        out.setdefault(e, {}).setdefault(c, i.where())
    for b in range(len(fn.bbs)):
        if b and not fn.preds[b]:
            continue
        if b in dead:
            continue
        for i in fn.bbs[b]:
            if i.op in ('call', 'invoke'):
                c = i.callee
                if c is None:
                    if i.x.get('asm') is not None:
                        continue
                    f = i.x['f']
                    a = t.val(f) if type(f) is int else None
                    n = base_name(a) if a else None
                    if n:
                        args = []
                        for k, o in enumerate(i.ops):
                            x = const_of(o)
                            if x is not None:
                                if abs(x) < 1 << 31:
                                    args.append((k, str(x)))
                                continue
                            an = base_name(t.val(o))
                            if an:
                                args.append((k, an))
                            elif not (type(o) is int and fn.is_arg(o)):
                                merged(fn, t, o, i, ctx_of, out, lambda x: ('arg', '*%s#%d' % (n, k), x))
                        put(('call', '*' + n, tuple(args)), i)
                        cbs.setdefault('*' + n, []).append(pos[id(i)])
                    continue
                if c.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
                    n = base_name(t.addr(i.ops[0]))
                    if n and '.' in n and not (sret and root(fn, i.ops[0]) == 0):
                        put(('copy' if c[8] == 'c' or c[8] == 'm' else 'clear', n, ''), i)
                    v = value(t, i.ops[2]) if const_of(i.ops[2]) is None else None
                    if v is not None:
                        put(('mem', 'set' if c.startswith('llvm.memset') else 'copy', v), i)
                if SKIPCALL.match(c) and c not in ('strcmp', 'memcmp'):
                    continue
                args = []
                for k, o in enumerate(i.ops):
                    x = const_of(o)
                    if x is not None:
                        if abs(x) < 1 << 31:
                            args.append((k, str(x)))
                        continue
                    n = base_name(t.val(o))
                    if n:
                        args.append((k, n))
                    elif type(o) is int and fn.is_arg(o) and fn.link != 'int':
                        args.append((k, 'A#%d' % o))
                    else:
                        merged(fn, t, o, i, ctx_of, out, lambda x: ('arg', '%s#%d' % (c, k), x))
                if c in ('strcmp', 'memcmp') and sum(not a[1].isdigit() for a in args) < 2:
                    continue
                put(('call', c, tuple(args)), i)
                if releases(('call', c, tuple(args))):
                    for o in i.ops[:2]:
                        v = root(fn, o)
                        if type(v) is int and (fn.is_arg(v) and len(fn.args[v]) > 2 and fn.args[v][2] == 'byval' or
                                               not fn.is_arg(v) and fn.defs.get(v) is not None and fn.defs[v].op == 'alloca'):
                            objs.setdefault(c, {})[fn.vn.get(v) or v] = i.where()
            elif i.op == 'store':
                a = t.addr(i.ops[1])
                n = base_name(a)
                if sret and root(fn, i.ops[1]) == 0:
                    continue
                if a.startswith('L:%struct.') and const_of(i.ops[0]) is not None and \
                        not re.match(r'L:%struct\.(pstream|sb_t|qv|bit_stream|lstr|htlist|dlist|anon)', a):
                    # first member of a local structure
                    put(('set', a[10:] + '+0', const_of(i.ops[0])), i)
                    continue
                if a.lstrip('*').startswith('C:__errno_location') and const_of(i.ops[0]) is not None:
                    put(('set', 'errno', const_of(i.ops[0])), i)
                    continue
                if a.startswith('A:') and '*' in a and '~' not in a:
                    n = a
                elif not n or a.startswith(('A:', '*')) or '.' not in n and not n.startswith('G:'):
                    continue
                x = const_of(i.ops[0])
                if x is None:
                    bs = bit_sets(fn, i.ops[0], a, t)
                    if bs:
                        w = (1 << (8 * i.x['s'])) - 1
                        for m, c in bs:
                            if m & w:
                                put(('set', '%s&%#x' % (n, m & w), c), i)
                        continue
                if x is None:
                    x = value(t, i.ops[0])
                    if x is None and merged(fn, t, i.ops[0], i, ctx_of, out, lambda x: ('set', n, x)):
                        continue
                put(('set', n, x), i)
            elif i.op == 'ret' and i.ops:
                returns(fn, t, i, ctx_of, out)
            elif i.op in ('atomicrmw', 'cmpxchg'):
                n = base_name(t.addr(i.ops[0]))
                if n:
                    put(('atomic', n, str(i.x.get('op') if type(i.x) is dict else i.op)), i)
    tests(fn, t, dead, lex, out)
    numbers(fn, dead, out)
    bags(fn, t, dead, out)
    starts(fn, dead, out)
    orders(fn, dead, sites, cbs, out)
    for c, vs in objs.items():
        out[('objs', c, len(vs))] = {frozenset(): max(vs.values())}
    return out


# ---------------------------------------------------------------- comparison
PRUNE = re.compile(r'^(qhash_hdr_t|qhash_t|qvector_t|htlist_t|dlist_t|mem_pool_t|mem_stack|pstream_t|sb_t)\.')


def key_of(e):
    return e


def neg(a):
    if a[0] != 'lin':
        return ()
    q = {'eq': (('ne', 0),), 'ne': (('eq', 0),), 'le': (('ge', 1),), 'ge': (('le', -1),)}[a[2]]
    return tuple(('lin', a[1], p, a[3] + k) for p, k in q)


def contra(new, old):
    """an atom of the one is the opposite of an atom of the other, or has another bound"""
    o = {(a[0], a[1], a[2], a[3]) for a in old if a[0] == 'lin'}
    for a in new:
        for n in neg(a):
            if n in o:
                return a
    ov = {(a[1], a[2]): a[3] for a in old if a[0] == 'lin'}
    for a in new:
        if a[0] == 'lin' and (a[1], a[2]) in ov and ov[(a[1], a[2])] != a[3] and \
                (a[0], a[1], a[2], a[3]) not in o and a[2] != 'ne':
            return a
    return None


FORMAT = re.compile(r'(sb_(add|set|prepend)v?f|lstr_fmt|\w*_fmt|\w*printf)$')


def compat(a, b):
    """call effects with the same callee whose named arguments do not differ"""
    if a[0] != b[0] or a[1] != b[1]:
        return False
    if a[0] == 'call':
        x, y = dict(a[2]), dict(b[2])
        if FORMAT.match(a[1]):
            # a message put together another way
            if x.get(0) != y.get(0):
                return False
            it = iter([v for k, v in b[2] if k])
            return all(v in it for k, v in a[2] if k and not v.startswith('G:.str'))
        return all(x[k] == y[k] for k in x if k in y)
    if a[0] == 'set':
        return a[2] == b[2] or (a[2] is None or b[2] is None) and not (type(a[2]) is int or type(b[2]) is int)
    return a == b


def implied(cn, co):
    """the new condition cn is implied by the old co as far as one can tell"""
    if cn <= co:
        return True
    if contra(cn, co):
        return False
    x = [a for a in cn - co if not ginv.harmless(a)]
    return ginv.coarse(x) <= ginv.coarse(co)


def was_tested(a, old):
    if a[0] != 'lin':
        return False
    k = tkey(a)
    for e in old:
        if e[0] == 'test' and e[1] == a[1] and (e[2] == k or e[2].rstrip('s') == k.rstrip('s') or
                                                {e[2].rstrip('s'), k.rstrip('s')} <= {'E0', 'T1'}):
            return True
        if e[0] == 'near' and '~' in e[1] and e[2] == k.rstrip('s'):
            p = partly(a)
            if p and p[1] == e[1]:
                return True
    return False


def good(a):
    """the success of a call"""
    return a[1].startswith('C:') and '+' not in a[1] and (a[2] == 'ge' and a[3] == 0 or a[2] == 'ne' and a[3] in (-1, 0) or a[2] == 'eq' and a[3] == 0)


def compare(old, new, bag=True):
    """old, new: {effect: {ctx: where}}; yields (kind, effect, text, where)"""
    tv = {}
    for e in new:
        if e[0] == 'test':
            tv.setdefault(e[1], set()).add(e[2])
    if bag:
        for x in bag_diff(old, new):
            yield x
    for e in sorted(old, key=str):
        if e[0] == 'bag':
            continue
        if e[0] == 'test':
            if e in new:
                continue
            ks = tv.get(e[1])
            if ks is None:
                if not any(ginv.coarse([('lin', e[1])]) <= ginv.coarse([('lin', v)]) for v in tv) \
                        and not any(e[1] in str(x) for x in new if x[0] in ('set', 'ret', 'call')):
                    yield 'missing', e, 'no longer %s' % show(e), ''
            elif not (e[2] in ('E0', 'T1') and ks & {'E0', 'T1'} and len(terms(e[1])) == 1 or
                      any(k.rstrip('s') == e[2].rstrip('s') for k in ks)):
                if ks - {x[2] for x in old if x[0] == 'test' and x[1] == e[1]}:
                    yield 'bound', e, 'now tests %s (%s) instead of %s' % (e[1], ' '.join(sorted(ks)), e[2]), ''
            continue
        if e[0] == 'order':
            w, _, r = e[2].partition(' ')
            if (e[0], e[1], {'before': 'after', 'after': 'before'}[w] + ' ' + r) in new:
                yield 'order', e, 'does `%s` no longer %s the call of %s but %s it' % (
                    r, w, e[1], {'before': 'after', 'after': 'before'}[w]), ''
            continue
        if e[0] == 'near':
            # some unnamed value compared with a bound: the bound moved by one
            if e not in new:
                k = int(e[2][1:])
                alt = [(e[2][0], -1), (e[2][0], 1)]
                if k:
                    alt += [('T', 0), ('T', 1)] if e[2][0] == 'E' else [('E', 0), ('E', -1)]
                for q, d in alt:
                    x = ('near', e[1], '%s%d' % (q, k + d))
                    if x in new and x not in old:
                        yield 'bound', e, 'now compares %s with %d instead of %d' % (
                            e[1].replace('~', 'some value'), k + d, k), min(new[x].values())
            continue
        if e[0] == 'loops':
            ln = {x[1]: x[2] for x in new if x[0] == 'loops'}
            lo = {x[1]: x[2] for x in old if x[0] == 'loops'}
            for d in (-1, 1):
                if ln.get(e[1], 0) == e[2] - 1 and ln.get(e[1] + d, 0) == lo.get(e[1] + d, 0) + 1 and \
                        sum(ln.values()) == sum(lo.values()):
                    yield 'bound', e, 'now starts a loop from %d instead of %d' % (e[1] + d, e[1]), ''
            continue
        if e[0] == 'objs':
            n = max([x[2] for x in new if x[0] == 'objs' and x[1] == e[1]], default=0)
            if n < e[2]:
                yield 'missing', e, 'applies %s to %d local objects, %d were to be released' % (e[1], n, e[2]), ''
            continue
        ns = dict(new.get(e, ()))
        if not ns or any(not any(implied(cn, co) for cn in ns) for co in old[e]):
            for e2 in new:
                if e2 != e and compat(e, e2) and (e2 not in old or e[0] == 'call'):
                    for c, w in new[e2].items():
                        ns.setdefault(c, w)
        if not ns and e[0] in ('copy', 'clear') and any(x not in old for x in new if x[0] in ('set', 'copy', 'clear', 'call')):
            continue        # field by field, or through a temporary
        if not ns:
            m = re.match(r'C:(\w+)', str(e[1])) if e[0] == 'ret' else None
            if m and (any(x[0] == 'test' and x[1] == e[1] for x in new) and
                      not any(x[0] == 'test' and x[1] == e[1] for x in old) or
                      any(a[1] == e[1] for x in new if x[0] == 'ret' and type(x[1]) is int and x[1] < 0 for c in new[x] for a in c)):
                continue        # tested, and something returned for each outcome
            yield 'missing', e, 'no longer %s' % show(e), ''
            continue
        bad = None
        for co in old[e]:
            if any(implied(cn, co) for cn in ns):
                continue
            best = None
            for cn, w in ns.items():
                x = contra(cn, co)
                xs = [x] if x else [a for a in cn - co if not ginv.harmless(a) and not ginv.coarse([a]) <= ginv.coarse(co)]
                if best is None or len(xs) < len(best[0]):
                    best = (xs, w)
            if e[0] == 'ret' and best[0] and all(a[0] == 'lin' for a in best[0]):
                rets = [x[1] for x in new if x[0] == 'ret' and type(x[1]) is int]
                if all(a[1] == e[1] for a in best[0]) and rets:
                    continue    # the other values are returned as constants
                if type(e[1]) is int and all(good(a) and any(a[1] in str(x[1:]) or a[1].split(':')[-1] == x[1] for x in old) for a in best[0]):
                    continue    # a status tested where it comes from
            if (len(ns) > len(old[e]) or len(ns) > 1 < len(old[e])) and all(was_tested(a, old) for a in best[0]):
                continue        # the cases of a former alternative
            bad = ('narrower', e, '%s only when %s' % (show(e), ginv.show(best[0])), best[1])
            break
        if bad:
            yield bad
            continue
        # done in more cases than it was
        if e in new and len(new[e]) == len(old[e]):
            for cn, w in new[e].items():
                if any(co <= cn or ginv.coarse(co) <= ginv.coarse(cn) for co in old[e]):
                    continue
                if cn in old[e]:
                    continue
                lost = min(([a for a in co - cn if not ginv.coarse([a]) <= ginv.coarse(cn)] for co in old[e]), key=len)
                lost = [a for a in lost if not ginv.harmless(a)]
                gone = [a for a in lost if ('test', a[1], tkey(a)) not in new]
                if gone and len(old[e]) == 1:
                    yield 'wider', e, '%s even when not %s' % (show(e), ginv.show(gone)), w
                    break
                if lost and e[0] in ('call', 'set'):
                    yield 'wider?', e, lost, w
                    break


def show(e):
    if e[0] == 'call':
        return 'calls %s(%s)' % (e[1], ', '.join('%s' % (a,) for _, a in e[2]))
    if e[0] == 'set':
        return 'sets %s%s' % (e[1], ' to %s' % e[2] if e[2] is not None else '')
    if e[0] == 'ret':
        return 'returns %s' % e[1]
    if e[0] == 'test':
        return 'tests %s %s' % (e[1], e[2].replace('T', '>= ').replace('E', '== '))
    if e[0] == 'bag':
        if e[1] == 'cmp':
            return 'compares %s value with %s (%s)' % ('a signed' if e[2][1:] == 's' else 'a', e[3], e[2])
        if e[1] == 'lt':
            return 'orders %s%s' % (e[2], '' if e[3] else ' reversed')
        if e[1] == 'mm':
            return 'takes the %s of two values%s' % (e[2], ' (%s)' % e[3] if e[3] != '' else '')
        if e[1] == 'put':
            return 'writes %s in %s bytes' % (e[3], e[2])
        return 'computes %s %s' % (e[2] or 'add', e[3])
    if e[0] == 'num':
        return 'computes with %s' % e[1]
    if e[0] == 'objs':
        return 'applies %s to %d local objects' % (e[1], e[2])
    if e[0] == 'loops':
        return 'counts from %d in %d loops' % (e[1], e[2])
    if e[0] == 'near':
        return 'compares %s %s' % (e[1].replace('~', 'some value '), e[2].replace('T', '>= ').replace('E', '== '))
    if e[0] == 'mem':
        return '%s %s bytes' % ({'set': 'fills', 'copy': 'copies'}[e[1]], e[2])
    if e[0] in ('copy', 'clear'):
        return '%s %s' % ({'copy': 'copies a value to', 'clear': 'clears'}[e[0]], e[1])
    if e[0] == 'order':
        return '%s %s' % (e[2], e[1])
    if e[0] == 'arg':
        return 'passes %s to %s' % (e[2], e[1])
    return ' '.join(map(str, e))


def inventory(ctx, files, keep=None, want=None, tag='e'):
    dumps = ir.build(ctx.scratch, files=files, inline=20000, multi=3000, keep=keep, passes=PASSES, tag=tag, ext=25)
    mods = ir.load_all(dumps)
    at = scope.addr_taken(mods)
    todo, seen = [], set()
    for m in mods.values():
        called = {i.callee for f in m.fns.values() for i in f.calls()}
        for f in m.fns.values():
            if scope.is_test(f) or (f.file, f.name) in seen or (want and not want(f)):
                continue
            if f.link == 'int' and f.name not in at and f.name not in called:
                continue
            seen.add((f.file, f.name))
            todo.append((f, m))

    def one(x):
        f, m = x
        calls = {i.callee for i in f.calls() if i.callee and not i.callee.startswith('llvm.')}
        return effects(f, m), calls
    r = {}
    for (f, m), v in zip(todo, pmap(one, todo)):
        r[(f.file, f.name)] = v
    allf = {(f.file, f.name) for m in mods.values() for f in m.fns.values()}
    inventory.fns = {(f.file, f.name): (f, m) for f, m in todo}
    return r, allf


def enc(e, cs):
    return json.dumps([list(e), sorted([sorted(map(list, c), key=str) for c in cs], key=str)], separators=(',', ':'))


def dec(l):
    e, cs = json.loads(l)
    if e[0] == 'call':
        e[2] = tuple(tuple(a) for a in e[2])
    return tuple(e), {frozenset(tuple(a) for a in c): '' for c in cs}


def data_path(prop):
    return os.path.join(ir.VERIF, 'data', 'effects_%s.txt' % prop.lower())


def read(path):
    r, cur = {}, None
    for l in open(path):
        l = l.rstrip('\n')
        if l[:2] == 'F ':
            _, fi, fn = l.split(' ')
            cur = r[(fi, fn)] = {}
        elif l and l[0] == '[':
            e, cs = dec(l)
            cur[e] = cs
    return r


def known(path):
    l = open(path).readline().split()
    return set(l[1:]) if l and l[0] == 'N' else set()


def freeze(ctx, files, keep=None, want=None, only=None):
    inv, allf = inventory(ctx, files, keep, want)
    n = 0
    with open(data_path(ctx.prop), 'w') as f:
        f.write('N %s\n' % ' '.join(sorted({x[1] for x in allf})))
        for k, (ef, calls) in sorted(inv.items()):
            if only:
                ef = {e: c for e, c in ef.items() if only(e)}
            if not ef:
                continue
            f.write('F %s %s\n' % k)
            for e in sorted(ef, key=str):
                f.write(enc(e, ef[e]) + '\n')
                n += 1
    print(len(inv), 'functions', n, 'effects')


def run(ctx, files, floor, keep=None, kinds=None):
    old = read(data_path(ctx.prop))
    inv, allf = inventory(ctx, files, keep)
    fresh = {x[1] for x in allf} - known(data_path(ctx.prop))
    fresh = re.compile(r'C:(%s)\b' % '|'.join(map(re.escape, sorted(fresh)))) if fresh else None
    names = {}
    for k in inv:
        names.setdefault(k[1], []).append(k)
    nf = ne = gone = 0
    for k, ef in sorted(old.items()):
        if k not in inv:
            gone += 1
            continue
        nf += 1
        ne += len(ef)
        cur = {e: dict(c) for e, c in inv[k][0].items()}
        seen, work = {k}, list(inv[k][1])
        while work:
            c = work.pop()
            for k2 in names.get(c, ()):
                if k2 not in old and k2 not in seen and k2[0] == k[0]:
                    seen.add(k2)
                    work += inv[k2][1]
                    for e, cs in inv[k2][0].items():
                        for x, w in cs.items():
                            cur.setdefault(e, {}).setdefault(x, w)
        if fresh:
            cur = {e: {frozenset(a for a in c if not fresh.search(str(a[1]))): w for c, w in cs.items()}
                   for e, cs in cur.items()}
        for kind, e, text, where in compare(ef, cur, len(seen) == 1 and not (fresh and any(fresh.fullmatch('C:' + c) for c in inv[k][1]))):
            if kind == 'wider?':
                if not kinds and not (fresh and any(fresh.fullmatch('C:' + c) for c in inv[k][1])) and len(seen) == 1 \
                        and sure_wider(*inventory.fns[k], e, text):
                    ctx.violation('%s:wider:%s' % (k[1], show(e)), '%s() %s even when not %s (%s), %s' % (
                        k[1], show(e), ginv.show(text), k[0], where))
                continue
            if kinds and kind not in kinds:
                continue
            if kind == 'wider' and fresh and any(fresh.fullmatch('C:' + c) for c in inv[k][1]):
                continue        # the conditions may be in the new function
            ctx.violation('%s:%s:%s' % (k[1], kind, show(e)),
                          '%s() %s (%s)%s' % (k[1], text, k[0], (', ' + where) if where else ''))
    ctx.counts['functions_gone'] = gone
    ctx.floor('functions_compared', nf, floor[0])
    ctx.floor('effects_compared', ne, floor[1])
    for (fi, fn), ef in list(sorted(old.items()))[::max(1, len(old) // 12)]:
        for e in sorted(ef, key=str)[:2]:
            ctx.samples.append('%s() %s' % (fn, show(e)))
