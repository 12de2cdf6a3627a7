"""Inventory of the conditions under which a function refuses its input.

A guard is a branch edge from which every path ends in a failure return while the
other side can still succeed. It is written down as a set of atoms (a conjunction)
over what is tested: struct fields by name, arguments by type, results of calls,
constants: nothing that depends on how the test is laid out in the source."""
import re
import errs

FAILCALLS = None


class G:
    __slots__ = ('own', 'ctx', 'loc', 'where', 'msg', 'ins')

    def __init__(self, own, ctx, loc, where, msg='', ins=frozenset()):
        self.own, self.ctx, self.loc, self.where, self.msg, self.ins = own, ctx, loc, where, msg, ins


def _names(mod, ty):
    """Members of struct type ty ('%struct.X') as {offset: (name, size, sub)}"""
    n = ty[1:] if ty.startswith('%') else ty
    for p in ('struct.', 'union.', 'class.'):
        if n.startswith(p):
            n = n[len(p):]
    n = re.sub(r'\.\d+$', '', n)
    return n, mod.structs.get(n)


def _member(ms, off):
    best = None
    for m in ms:
        if m[1] <= off < m[1] + max(1, (m[2] + 7) // 8):
            best = m
            break
    if best is None:
        return '+%d' % off
    s = best[0] or ''
    if len(best) > 4 and best[4] is not None and len(best[4]):
        if '*' not in best[3]:
            sub = _member(best[4], off - best[1])
            return (s + '.' + sub) if s else sub
    return s or '+%d' % off


class Tok:
    """Canonical description of values."""

    def __init__(self, fn, mod, calls=None):
        self.fn, self.mod = fn, mod
        self.memo = {}
        self.calls = calls or (lambda c: c)

    def field(self, ty, off):
        n, st = _names(self.mod, ty)
        if st is None:
            return '%s+%d' % (re.sub(r'anon(\.\d+)?', 'anon', re.sub(r'^%?(struct|union)\.', '', ty)), off)
        return '%s.%s' % (n, _member(st['m'], off))

    def addr(self, v, d=0):
        """Description of the memory at address v."""
        fn = self.fn
        if type(v) is tuple:
            if v[0] == 'g':
                return 'G:' + re.sub(r'\.\d+$', '', v[1])
            if v[0] == 'gep':
                b = v[1]
                if v[3].startswith('%struct') or v[3].startswith('%union'):
                    return self.field(v[3], v[2] or 0)
                return self.addr(b, d + 1)
            return 'K'
        if d > 12:
            return '?'
        if fn.is_arg(v):
            t = fn.argt[v + 1] if v + 1 < len(fn.argt) else '?'
            return 'A:' + t
        i = fn.defs.get(v)
        if i is None:
            return '?'
        if i.op == 'getelementptr':
            t = i.x['t']
            if t.startswith('%struct') or t.startswith('%union'):
                o = i.x.get('o')
                if o is not None and (o or len(i.x['i']) > 1):
                    return self.field(t, o)
            return self.addr(i.ops[0], d + 1)
        if i.op == 'alloca':
            return 'L:' + re.sub(r'\.\d+$', '', i.ty)
        if i.op == 'load':
            return '*' + self.addr(i.ops[0], d + 1)
        if i.op in ('call', 'invoke'):
            return 'C:' + self.cname(i)
        if i.op in ('phi', 'select'):
            return self.merge(v)
        if i.op in ('bitcast', 'inttoptr', 'ptrtoint', 'freeze', 'addrspacecast'):
            return self.addr(i.ops[0], d + 1)
        return '?'

    def cname(self, i):
        c = i.callee
        if c is None:
            if i.x.get('asm') is not None:
                return 'asm'
            f = i.x['f']
            return 'ind' if type(f) is not int else 'ind:' + self.addr(f)
        if c.startswith('llvm.'):
            c = re.sub(r'\.(i|p)\d+.*$', '', c)
        return c

    def merge(self, v):
        """phi / select: the leaves."""
        leaves, seen, work = set(), set(), [v]
        while work and len(seen) < 200:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            if type(x) is int and not self.fn.is_arg(x):
                i = self.fn.defs.get(x)
                if i is not None:
                    if i.op == 'phi':
                        work += i.ops
                        continue
                    if i.op == 'select':
                        work += i.ops[1:]
                        continue
                    if i.op in ('add', 'sub', 'getelementptr', 'zext', 'sext', 'trunc', 'freeze', 'bitcast', 'mul', 'shl',
                                'or', 'and', 'lshr', 'ashr', 'xor'):
                        work += i.ops
                        continue
            elif type(x) is tuple:
                if x[0] in ('i', 'null', 'undef', 'poison'):
                    continue
            leaves.add(self.val(x))
        if not leaves:
            return 'P'
        l = set()
        for x in leaves:
            if x.startswith('P{'):
                l.update(x[2:-1].split('|'))
            else:
                l.add(x)
        if len(l) == 1:
            return next(iter(l))
        return 'P{' + '|'.join(sorted(l)[:8]) + '}'

    def val(self, v):
        if v in self.memo:
            return self.memo[v]
        self.memo[v] = 'rec'
        r = self._val(v)
        self.memo[v] = r
        return r

    def _val(self, v):
        fn = self.fn
        if type(v) is tuple:
            if v[0] == 'i':
                return str(v[1])
            if v[0] == 'null':
                return '0'
            if v[0] in ('g', 'gep'):
                return '&' + self.addr(v)
            return 'K'
        if fn.is_arg(v):
            return self.addr(v)
        i = fn.defs.get(v)
        if i is None:
            return '?'
        if i.op == 'load':
            a = self.addr(i.ops[0])
            return a if '.' in a and not a.startswith(('A:', '*', 'L:', 'G:')) else '*' + a
        if i.op in ('call', 'invoke'):
            c = self.cname(i)
            if c.startswith('llvm.expect'):
                return self.val(i.ops[0])
            return 'C:' + c
        if i.op in ('phi', 'select'):
            return self.merge(v)
        if i.op in ('zext', 'sext', 'trunc', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr'):
            return self.val(i.ops[0])
        if i.op == 'alloca':
            return '&' + self.addr(v)
        if i.op == 'getelementptr':
            if i.x['t'].startswith(('%struct', '%union')):
                return '&' + self.addr(v)
            return self.merge_ops('gep', [i.ops[0]] + [o for o, _ in i.x.get('v') or []])
        if i.op == 'icmp' or i.op == 'fcmp':
            return '%s(%s)' % (i.op[0] + 'cmp', ','.join(sorted(self.val(o) for o in i.ops)))
        if i.op in ('add', 'mul', 'and', 'or', 'xor'):
            return '%s(%s)' % (i.op, ','.join(sorted(self.val(o) for o in i.ops)))
        return '%s(%s)' % (i.op, ','.join(self.val(o) for o in i.ops))

    def merge_ops(self, n, ops):
        return '%s(%s)' % (n, ','.join(sorted({self.val(o) for o in ops})))

    # linear forms
    def lin(self, v, k=1, acc=None, d=0):
        """(dict root -> coefficient, const, zext?)"""
        if acc is None:
            acc = [{}, 0, False]
        fn = self.fn
        if type(v) is tuple:
            if v[0] == 'i':
                acc[1] += k * v[1]
                return acc
            if v[0] in ('null', 'zero'):
                return acc
        elif not fn.is_arg(v):
            i = fn.defs.get(v)
            if i is not None and d < 8:
                if i.op in ('zext', 'sext', 'trunc', 'freeze', 'ptrtoint', 'inttoptr', 'bitcast'):
                    if i.op == 'zext':
                        acc[2] = True
                    return self.lin(i.ops[0], k, acc, d + 1)
                if i.op == 'add' or (i.op == 'or' and i.x and i.x == 'disjoint'):
                    self.lin(i.ops[0], k, acc, d + 1)
                    return self.lin(i.ops[1], k, acc, d + 1)
                if i.op == 'sub':
                    self.lin(i.ops[0], k, acc, d + 1)
                    return self.lin(i.ops[1], -k, acc, d + 1)
                if i.op in ('mul', 'shl') and type(i.ops[1]) is tuple and i.ops[1][0] == 'i':
                    c = i.ops[1][1]
                    if i.op == 'shl':
                        c = 1 << c if 0 <= c < 64 else 1
                    return self.lin(i.ops[0], k * c, acc, d + 1)
                if i.op == 'getelementptr' and not i.x['t'].startswith(('%struct', '%union')) and i.x.get('o') is not None:
                    acc[1] += k * i.x['o']
                    for o, s in i.x.get('v') or []:
                        self.lin(o, k * s, acc, d + 1)
                    return self.lin(i.ops[0], k, acc, d + 1)
                if i.op in ('call',) and i.callee and i.callee.startswith('llvm.expect'):
                    return self.lin(i.ops[0], k, acc, d + 1)
        t = (self.val(v), v)
        acc[0][t] = acc[0].get(t, 0) + k
        return acc


NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt',
       'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}


def leaves(tok):
    """Leaf roots of a token, for the coarse comparison."""
    return frozenset(x for x in re.findall(r'[^(){},|]+', tok)
                     if x not in ('P', 'gep', 'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv',
                                  'urem', 'srem', 'icmp', 'fcmp', 'K', '?', 'rec', 'select', 'extractvalue')
                     and not re.match(r'^-?\d+$', x))


def tokvec(d):
    """Values that look the same are told apart: x - x of two reads stays."""
    r, n = {}, {}
    for (t, v), c in d.items():
        if c:
            r.setdefault(t, []).append(c)
    out = {}
    for t, cs in r.items():
        s = sum(cs)
        if len(cs) > 1 and s == 0:
            out[t + "'"] = abs(cs[0])
        elif s:
            out[t] = s
    return out


def cmp_atom(t, pred, a, b):
    """Atom for `a pred b`."""
    A = t.lin(a)
    t.lin(b, -1, A)
    vec = tokvec(A[0])
    const = A[1]
    if not vec:
        return ('const', pred)
    # a constant factor common to all coefficients
    ks = sorted(vec)
    sg = 1 if vec[ks[0]] > 0 else -1
    g = 0
    import math
    for c in vec.values():
        g = math.gcd(g, abs(c))
    if g > 1 and const % g == 0:
        vec = {k: c // g for k, c in vec.items()}
        const //= g
    s = 'u' if pred[0] == 'u' else 's' if pred[0] == 's' else ''
    if A[2]:
        s = ''
    if sg < 0:
        vec = {k: -c for k, c in vec.items()}
        const = -const
    if pred in ('eq', 'ne'):
        p, k = pred, -const
    else:
        q = pred[1:]
        if sg < 0:
            q = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}[q]
        # vec + const q 0
        if q == 'lt':
            p, k = 'le', -const - 1
        elif q == 'le':
            p, k = 'le', -const
        elif q == 'gt':
            p, k = 'ge', -const + 1
        else:
            p, k = 'ge', -const
        # unsigned x <= 0, x >= 1
        if s == 'u' and len(vec) == 1 and p == 'le' and k == 0:
            p, s = 'eq', ''
        elif s == 'u' and len(vec) == 1 and p == 'ge' and k == 1:
            p, k, s = 'ne', 0, ''
    v = '+'.join(('' if c == 1 else '%d*' % c) + r for r, c in sorted(vec.items()))
    return ('lin', v, p, k, s)


def icmp(p, x, y):
    if p[0] == 'u':
        x, y = x & 0xffffffffffffffff, y & 0xffffffffffffffff
    p = p[-2:]
    return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p]


def from_phi(t, i, one, d):
    """The condition `one` of a merged value, with what leads to each of its sources."""
    fn = t.fn
    idom = fn.doms()
    top = idom.get(i.bb)
    r = []
    for o, p in zip(i.ops, i.x):
        vs = one(o)
        if d < 8 and vs and not fn.dominates(i.bb, p):
            edges = [(p, i.bb)] if len(set(fn.succs[p])) > 1 else []
            n = p
            for _ in range(12):
                if n == top or n not in idom or idom[n] == n:
                    break
                if fn.preds[n] == [idom[n]] and len(set(fn.succs[idom[n]])) > 1:
                    edges.append((idom[n], n))
                n = idom[n]
            for x, y in edges:
                e = edge_conds(t, fn, x, y, d + 4)
                if len(e) == 1:
                    vs = [a | e[0] for a in vs]
                elif e:
                    c = frozenset.intersection(*e)
                    vs = [a | c for a in vs] if len(vs) * len(e) > 16 else [a | b for a in vs for b in e]
        r += vs
    return r[:16]


def atoms(t, v, pos, d=0):
    """Condition v (or its negation) as a disjunction of conjunctions of atoms."""
    fn = t.fn
    if type(v) is tuple:
        if v[0] == 'i':
            return [frozenset()] if bool(v[1]) == pos else []
        return [frozenset([('other', t.val(v), pos)])]
    i = fn.defs.get(v) if not fn.is_arg(v) else None
    if i is not None and d < 12:
        if i.op == 'icmp':
            a, b = i.ops
            p = i.x['p']
            # boolean compared with a constant
            if type(b) is tuple and b[0] == 'i' and b[1] in (0,) and p in ('eq', 'ne'):
                j = fn.defs.get(a) if type(a) is int and not fn.is_arg(a) else None
                while j is not None and j.op in ('zext', 'sext', 'freeze', 'trunc') and type(j.ops[0]) is int:
                    k = fn.defs.get(j.ops[0]) if not fn.is_arg(j.ops[0]) else None
                    if k is None:
                        break
                    if k.ty == 'i1' or k.op in ('icmp', 'fcmp'):
                        return atoms(t, j.ops[0], pos == (p == 'ne'), d + 1)
                    j = k
                if j is not None and (j.ty == 'i1'):
                    return atoms(t, a, pos == (p == 'ne'), d + 1)
            if type(b) is tuple and b[0] in ('i', 'null'):
                j = fn.defs.get(a) if type(a) is int and not fn.is_arg(a) else None
                while j is not None and j.op in ('sext', 'zext', 'trunc', 'freeze') and type(j.ops[0]) is int:
                    j = fn.defs.get(j.ops[0]) if not fn.is_arg(j.ops[0]) else None

                def one(o):
                    if type(o) is tuple and o[0] in ('i', 'null'):
                        return [frozenset()] if icmp(p, o[1] if o[0] == 'i' else 0, b[1] if b[0] == 'i' else 0) == pos else []
                    k = fn.defs.get(o) if type(o) is int and not fn.is_arg(o) else None
                    if k is not None and k.op == 'select' and d < 8:
                        return sel(k)
                    return [frozenset([cmp_atom(t, p if pos else NEG[p], o, b)])]

                def sel(j):
                    T, F = atoms(t, j.ops[0], True, d + 3), atoms(t, j.ops[0], False, d + 3)
                    return ([x | y for x in T for y in one(j.ops[1])] + [x | y for x in F for y in one(j.ops[2])])[:16]
                if j is not None and j.op == 'select' and d < 8 and \
                        any(type(o) is tuple and o[0] in ('i', 'null') for o in j.ops[1:]):
                    return sel(j)
                if j is not None and j.op == 'phi' and d < 8 and \
                        any(type(o) is tuple and o[0] in ('i', 'null') for o in j.ops) and not fn.dominates(j.bb, j.x[0]) \
                        and not any(fn.dominates(j.bb, q) for q in j.x):
                    # the outcome of something, looked at later
                    return from_phi(t, j, one, d)
            return [frozenset([cmp_atom(t, p if pos else NEG[p], a, b)])]
        if i.op == 'xor' and i.ty == 'i1' and type(i.ops[1]) is tuple:
            return atoms(t, i.ops[0], not pos if i.ops[1][1] else pos, d + 1)
        if i.op in ('zext', 'freeze', 'trunc', 'sext') and type(i.ops[0]) is int:
            return atoms(t, i.ops[0], pos, d + 1)
        if i.op in ('and', 'or', 'select') and i.ty == 'i1':
            if i.op == 'select':
                c, x, y = i.ops
                if type(x) is tuple and x[0] == 'i' and x[1]:
                    op, l, r = 'or', c, y
                elif type(y) is tuple and y[0] == 'i' and not y[1]:
                    op, l, r = 'and', c, x
                else:
                    T, F = atoms(t, c, True, d + 3), atoms(t, c, False, d + 3)
                    X, Y = atoms(t, x, pos, d + 3), atoms(t, y, pos, d + 3)
                    return ([a | b for a in T for b in X] + [a | b for a in F for b in Y])[:16]
            else:
                op, (l, r) = i.op, i.ops
            if op:
                L, R = atoms(t, l, pos, d + 1), atoms(t, r, pos, d + 1)
                if (op == 'or') == pos:
                    return (L + R)[:16]
                return [a | b for a in L for b in R][:16]
        if i.op == 'phi':
            # a short circuit that was not threaded: the values that decide
            return from_phi(t, i, lambda o: atoms(t, o, pos, d + 4), d)
    return [frozenset([('lin', t.val(v), 'ne' if pos else 'eq', 0, '')])]


def fail_value(fn, mode, v, alw=()):
    if type(v) is tuple:
        if mode == 'neg':
            return v[0] == 'i' and v[1] < 0
        return v[0] == 'null' or (v[0] == 'i' and v[1] == 0)
    if type(v) is int and not fn.is_arg(v) and mode == 'neg':
        d = fn.defs.get(v)
        return d is not None and d.op == 'call' and d.callee in alw
    return False


def implied_fail(fn, mode, x, nxt, v):
    """v, returned after going from block x to nxt, is known to be a failure there"""
    for _ in range(6):
        t = fn.bbs[x][-1]
        if t.op == 'br' and t.ops and len(t.x) == 2 and t.x[0] != t.x[1]:
            c = fn.defs.get(t.ops[0]) if type(t.ops[0]) is int else None
            if c is not None and c.op == 'icmp':
                pr = c.x['p']
                pr = pr if t.x[0] == nxt else NEG[pr]
                k = c.ops[1]
                if c.ops[0] == v and type(k) is tuple:
                    if mode == 'neg' and k[0] == 'i' and ((pr == 'slt' and k[1] <= 0) or (pr == 'sle' and k[1] < 0)
                                                           or (pr == 'eq' and k[1] < 0)):
                        return True
                    if mode == 'null' and pr == 'eq' and (k[0] == 'null' or k[1:2] == (0,)):
                        return True
        ps = fn.preds[x]
        if len(ps) != 1:
            return False
        nxt, x = x, ps[0]
    return False


def _const(fn, b, v, env, d=0):
    """Constant value of v in block b with the phis of b bound by env, or None."""
    if type(v) is tuple:
        if v[0] == 'i':
            return v[1]
        return 0 if v[0] == 'null' else None
    if v in env:
        return env[v]
    i = fn.defs.get(v) if not fn.is_arg(v) else None
    if i is None or i.bb != b or d > 6:
        return None
    if i.op in ('zext', 'sext', 'trunc', 'freeze'):
        r = _const(fn, b, i.ops[0], env, d + 1)
        if r is not None and i.op == 'zext' and r < 0:
            return None
        return r
    if i.op == 'icmp':
        x, y = (_const(fn, b, o, env, d + 1) for o in i.ops)
        if x is None or y is None:
            return None
        p = i.x['p']
        if p[0] == 'u' and (x < 0) != (y < 0):
            x, y = (x + (1 << 64) if x < 0 else x), (y + (1 << 64) if y < 0 else y)
        q = p if p in ('eq', 'ne') else p[1:]
        return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[q])
    if i.op == 'xor':
        x, y = (_const(fn, b, o, env, d + 1) for o in i.ops)
        return None if x is None or y is None else x ^ y
    return None


def analyse(fn, mod, mode, isfail=None, alw=()):
    """Successes and failures over the graph of (block, predecessor) nodes, so that a
    branch on a merged constant goes where that constant sends it."""
    t = Tok(fn, mod)
    callfail = set()
    if isfail:
        for i in fn.calls():
            if isfail(i):
                callfail.add(i.bb)
    # merged values that may be returned
    R, work = set(), []
    for blk in fn.bbs:
        if blk[-1].op == 'ret' and blk[-1].ops:
            work.append(blk[-1].ops[0])
    while work:
        v = work.pop()
        d = fn.defs.get(v) if type(v) is int and not fn.is_arg(v) else None
        if d is None or v in R:
            continue
        if d.op == 'phi':
            R.add(v)
            work += d.ops
        elif d.op in ('sext', 'trunc', 'freeze', 'zext') and not i1(fn, d.ops[0]):
            work.append(d.ops[0])

    def strip(v):
        for _ in range(4):
            d = fn.defs.get(v) if type(v) is int and not fn.is_arg(v) else None
            if d is not None and d.op in ('sext', 'trunc', 'freeze', 'zext') and not i1(fn, d.ops[0]):
                v = d.ops[0]
            else:
                break
        return v
    rl = sorted(R)
    rx = {v: k for k, v in enumerate(rl)}
    start = (0, -1, ('?',) * len(rl))
    succ, pred = {start: []}, {start: []}
    okn, failn = [], []
    work = [start]
    while work:
        nd = work.pop()
        b, p, st = nd
        l = fn.bbs[b]
        env = {}
        phis = {}
        for i in l:
            if i.op != 'phi':
                break
            for o, q in zip(i.ops, i.x):
                if q == p:
                    phis[i.id] = o
                    c = _const(fn, -2, o, {})
                    if c is not None:
                        env[i.id] = c
                    break
        if phis and rl:
            n = list(st)
            for f, o in phis.items():
                if f in rx:
                    o = strip(o)
                    if type(o) is int and o in rx:
                        n[rx[f]] = st[rx[o]]
                        if n[rx[f]] != 'F' and implied_fail(fn, mode, p, b, o):
                            n[rx[f]] = 'F'
                    elif fail_value(fn, mode, o, alw) or (p >= 0 and type(o) is int and implied_fail(fn, mode, p, b, o)):
                        n[rx[f]] = 'F'
                    else:
                        n[rx[f]] = 'O'
            st = tuple(n)
        x = l[-1]
        if b in callfail:
            failn.append(nd)
            continue
        if x.op == 'ret':
            if not x.ops:
                okn.append(nd)
                continue
            v = strip(x.ops[0])
            if v in rx:
                f = st[rx[v]] == 'F'
            else:
                f = fail_value(fn, mode, v, alw)
            if f or (p >= 0 and type(v) is int and implied_fail(fn, mode, p, b, v)):
                failn.append(nd)
            else:
                okn.append(nd)
            continue
        ss = list(dict.fromkeys(fn.succs[b]))
        if x.op == 'br' and x.ops and len(ss) == 2:
            c = _const(fn, b, x.ops[0], env)
            if c is not None:
                ss = [x.x[0] if c & 1 else x.x[1]]
        elif x.op == 'switch':
            c = _const(fn, b, x.ops[0], env)
            if c is not None:
                ss = [next((q[1] for q in x.x[1:] if int(q[0]) == c), x.x[0])]
        if len(pred) > 60000:
            st = start[2]
        for s in ss:
            n2 = (s, b, st)
            succ.setdefault(nd, []).append(n2)
            if n2 not in pred:
                pred[n2] = []
                work.append(n2)
            pred[n2].append(nd)

    def back(l):
        r = set(l)
        w = list(l)
        while w:
            for q in pred[w.pop()]:
                if q not in r:
                    r.add(q)
                    w.append(q)
        return r
    cans, canf = back(okn), back(failn)
    can = {n[0] for n in cans}
    edges = {}
    for n in cans:
        for n2 in succ.get(n, ()):
            bad = n2 in canf and n2 not in cans
            k = (n[0], n2[0])
            edges[k] = edges.get(k, True) and bad

    def efail(p, s):
        return edges.get((p, s), False)
    return t, can, efail, pred


def i1(fn, v):
    d = fn.defs.get(v) if type(v) is int and not fn.is_arg(v) else None
    return d is not None and d.ty == 'i1'


def loop_exits(fn):
    """Branch blocks in a cycle with a successor outside of it."""
    # natural loops from back edges
    out = set()
    for b in range(len(fn.bbs)):
        for h in fn.succs[b]:
            if fn.dominates(h, b):
                body = {h, b}
                work = [b] if b != h else []
                while work:
                    x = work.pop()
                    for p in fn.preds[x]:
                        if p not in body:
                            body.add(p)
                            work.append(p)
                for x in body:
                    if any(s not in body for s in fn.succs[x]):
                        out.add(x)
    return out


def loop_conds(fn):
    """{(block, successor): header} of the exits by the condition of a loop, which may be
    made of several tests in a row"""
    r = {}
    for b in range(len(fn.bbs)):
        for h in fn.succs[b]:
            if not fn.dominates(h, b):
                continue
            body = {h, b}
            work = [b] if b != h else []
            while work:
                x = work.pop()
                for p in fn.preds[x]:
                    if p not in body:
                        body.add(p)
                        work.append(p)
            work, seen = [h], {h}
            while work:
                x = work.pop()
                if any(i.op in ('store', 'atomicrmw', 'cmpxchg') or i.op in ('call', 'invoke') and
                       not (i.callee or '').startswith('llvm.') for i in fn.bbs[x]):
                    continue
                for y in fn.succs[x]:
                    if y not in body:
                        if (x, y) not in r or fn.dominates(h, r[x, y]):
                            r[x, y] = h
                    elif y not in seen and fn.preds[y] == [x] or y != h and y not in seen and len(fn.bbs[y]) <= 6:
                        seen.add(y)
                        work.append(y)
    return r


def edge_conds(t, fn, b, s, d=0):
    """Condition of taking b -> s, as a disjunction of conjunctions."""
    x = fn.bbs[b][-1]
    if x.op == 'br' and x.ops:
        if x.x[0] == x.x[1]:
            return [frozenset()]
        return atoms(t, x.ops[0], x.x[0] == s, d)
    if x.op == 'switch':
        r = []
        cases = x.x[1:]
        if x.x[0] == s:
            a = set()
            for c in cases:
                if c[1] != s:
                    a.add(sw_atom(t, x, c[0], 'ne'))
            r.append(frozenset(a))
        else:
            for c in cases:
                if c[1] == s:
                    r.append(frozenset([sw_atom(t, x, c[0], 'eq')]))
        return r
    return [frozenset()]


def sw_atom(t, x, c, p):
    A = t.lin(x.ops[0])
    vec = tokvec(A[0])
    v = '+'.join(('' if k == 1 else '%d*' % k) + r for r, k in sorted(vec.items()))
    return ('lin', v, p, int(c) - A[1], '')


def guards(fn, mod, mode, isfail=None, alw=()):
    t, can, efail, nodes = analyse(fn, mod, mode, isfail, alw)
    idom = fn.doms()
    lex = loop_exits(fn)
    gedges = set()
    for b in range(len(fn.bbs)):
        ss = list(dict.fromkeys(fn.succs[b]))
        if len(ss) < 2 or b not in can:
            continue
        for s in ss:
            if efail(b, s):
                gedges.add((b, s))
    out = []
    ctxc = {}

    def ctx_of(b):
        """Atoms of the branches block b depends on, guards and loop exits left out."""
        if b in ctxc:
            return ctxc[b]
        d = idom.get(b, b)
        if d == b:
            ctxc[b] = frozenset()
            return ctxc[b]
        r = set(ctx_of(d))
        if fn.preds[b] == [d] and d not in lex:
            others = [x for x in dict.fromkeys(fn.succs[d]) if x != b]
            # not when it is only there because d did not refuse
            if others and not all((d, o) in gedges or o not in can for o in others):
                cs = edge_conds(t, fn, d, b)
                if cs:
                    r |= frozenset.intersection(*cs)
        ctxc[b] = frozenset(r)
        return ctxc[b]

    swreach = {}
    insc = {}

    def ins_of(b):
        """Which cases of the switches above it lead to block b:
        ('in', value, constants) or ('out', value, constants)"""
        if b in insc:
            return insc[b]
        r = set()
        d, x = b, None
        while idom.get(d, d) != d:
            d = idom[d]
            x = fn.bbs[d][-1]
            if x.op != 'switch':
                continue
            if d not in swreach:
                m = {}
                for s in dict.fromkeys(fn.succs[d]):
                    if (d, s) in gedges:
                        m[s] = set()
                        continue
                    seen, work = {s, d}, [s]
                    while work:
                        q = work.pop()
                        for z in fn.succs[q]:
                            if z not in seen:
                                seen.add(z)
                                work.append(z)
                    seen.discard(d)
                    m[s] = seen
                swreach[d] = m
            m = swreach[d]
            if all(b in m[s] or (d, s) in gedges for s in m):
                continue
            a = sw_atom(t, x, 0, 'eq')
            if b in m[x.x[0]]:
                cs = [int(c[0]) for c in x.x[1:] if b not in m[c[1]] and (d, c[1]) not in gedges]
                k = 'out'
            else:
                cs = [int(c[0]) for c in x.x[1:] if b in m[c[1]]]
                k = 'in'
            if cs:
                r.add((k, a[1], tuple(sorted(c + a[3] for c in cs))))
        insc[b] = frozenset(r)
        return insc[b]

    def clean(c):
        """Complementary atoms: the guard is reached either way."""
        drop = set()
        for a in c:
            if a[0] == 'lin':
                for q, k in {'eq': (('ne', 0),), 'ne': (('eq', 0),), 'le': (('ge', 1),), 'ge': (('le', -1),)}[a[2]]:
                    if any(z[0] == 'lin' and z[1] == a[1] and z[2] == q and z[3] == a[3] + k for z in c):
                        drop.add(a)
            else:
                drop.add(a)
        return frozenset(c - drop)
    msgc = {}

    def msg_of(s):
        """The diagnostic of the failing side: the first text handed to a call there."""
        if s in msgc:
            return msgc[s]
        seen, work, r = {s}, [s], ''
        while work and not r and len(seen) < 60:
            b = work.pop(0)
            if fn.bbs[b][-1].op == 'unreachable':
                continue
            for i in fn.bbs[b]:
                if i.op == 'call':
                    for o in i.ops:
                        if type(o) is tuple and o[0] == 'g':
                            g = mod.globals.get(o[1])
                            if g and g['const'] and type(g['init']) is list and g['init'][0] == 'str':
                                t = g['init'][1].rstrip('\0')
                                if len(t) > 5 and ' ' in t:
                                    r = t[:80]
                                    break
                    if r:
                        break
            for z in fn.succs[b]:
                if z not in seen and z not in can:
                    seen.add(z)
                    work.append(z)
        msgc[s] = r
        return r
    for b, s in sorted(gedges):
        x = fn.bbs[b][-1]
        own = edge_conds(t, fn, b, s)
        # short circuit: a && b
        ctx = clean(ctx_of(b))
        for o in own:
            o = frozenset(a for a in o if a[0] != 'const')
            fr = x.loc
            if x.op == 'br' and type(x.ops[0]) is int:
                d = fn.defs.get(x.ops[0])
                if d is not None and d.loc:
                    fr = d.loc
            out.append(G(o, ctx, tuple(map(str, fr or ())), x.where(), msg_of(s), ins_of(b)))
    # return c ? -1 : x
    for b in range(len(fn.bbs)):
        x = fn.bbs[b][-1]
        if x.op != 'ret' or not x.ops:
            continue
        todo, seen = [(x.ops[0], b)], set()
        while todo:
            v, bb = todo.pop()
            if v in seen or type(v) is not int or fn.is_arg(v):
                continue
            seen.add(v)
            d = fn.defs.get(v)
            if d is None:
                continue
            if d.op == 'phi':
                for o, p in zip(d.ops, d.x):
                    todo.append((o, p))
            elif d.op == 'select':
                c, y, z = d.ops
                fy, fz = fail_value(fn, mode, y), fail_value(fn, mode, z)
                if fy != fz:
                    for o in atoms(t, c, fy):
                        out.append(G(o, clean(ctx_of(d.bb)), tuple(map(str, d.loc or ())), d.where(), '', ins_of(d.bb)))
                todo += [(y, bb), (z, bb)]
            elif d.op == 'sext' and mode == 'neg' and type(d.ops[0]) is int and not fn.is_arg(d.ops[0]):
                e = fn.defs.get(d.ops[0])
                if e is not None and e.ty == 'i1':
                    for o in atoms(t, d.ops[0], True):
                        out.append(G(o, clean(ctx_of(d.bb)), tuple(map(str, d.loc or ())), d.where(), '', ins_of(d.bb)))
    return out
