"""Property simulation (ESP style): a forward, flow-sensitive dataflow over the
normalised SSA form.  Abstract states that agree on the property (typestate) part
are merged; the rest of the state (constants, sign/null facts, copies of handles
in locals) is kept per property state, so that correlated branches such as
    fd = open(..); if (fd < 0) goto err; ... err: if (fd >= 0) close(fd);
do not give infeasible paths.  No path is executed or handed to a solver."""
import time
from collections import defaultdict

INF = 1 << 70
TOP = (-INF, INF, frozenset())


class Limit(Exception):
    pass


class State:
    __slots__ = ('env', 'cells', 'con', 'prop', 'trace', 'esc')

    def __init__(self):
        self.env = {}
        self.cells = {}
        self.con = {}
        self.prop = ()
        self.trace = None
        self.esc = frozenset()

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.cells = dict(self.cells)
        s.con = dict(self.con)
        s.prop = self.prop
        s.trace = self.trace
        s.esc = self.esc
        return s


def syms_of(v):
    k = v[0]
    if k == 's':
        return (v,)
    if k == '+':
        return syms_of(v[1])
    if k == 'cmp':
        return syms_of(v[2]) + syms_of(v[3])
    if k == 'not':
        return syms_of(v[1])
    return ()


def subst(v, old, new):
    if v == old:
        return new
    k = v[0]
    if k == '+':
        return add(subst(v[1], old, new), v[2])
    if k == 'cmp':
        return ('cmp', v[1], subst(v[2], old, new), subst(v[3], old, new))
    if k == 'not':
        return ('not', subst(v[1], old, new))
    return v


def add(v, n):
    if n == 0:
        return v
    if v[0] == 'c':
        return ('c', v[1] + n)
    if v[0] == '+':
        return add(v[1], v[2] + n)
    if v[0] == 'a':
        return ('a', v[1], v[2] + n)
    if v[0] == 'g':
        return ('g', v[1], v[2] + n)
    return ('+', v, n)


NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt',
       'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle',
        'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}


class Engine:
    """Subclass or pass a `prop` object with the callbacks:
         init(fn, st)
         call(eng, st, inst, callee, args) -> None | list of (State, retval|None)
         store(eng, st, inst, addr, val)
         ret(eng, st, inst, val)
         edge(eng, st, a, b)   (optional)
    """

    def __init__(self, fn, prop, max_states=60000, max_time=60, split=None):
        self.fn = fn
        self.prop = prop
        self.max_states = max_states
        self.max_time = max_time
        self.steps = 0
        self._liveness()
        self._loops()

    # -- preparation -------------------------------------------------------
    def _liveness(self):
        fn = self.fn
        n = len(fn.bbs)
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]
        phiuse = [set() for _ in range(n)]  # uses at the end of block
        for b, l in enumerate(fn.bbs):
            for i in l:
                if i.op == 'phi':
                    for v, p in zip(i.ops, i.x):
                        if type(v) is int:
                            phiuse[p].add(v)
                    dfn[b].add(i.id)
                    continue
                for v in i.ops:
                    if type(v) is int and v not in dfn[b]:
                        use[b].add(v)
                if i.op == 'getelementptr':
                    for v, _ in i.x.get('v', ()):
                        if type(v) is int and v not in dfn[b]:
                            use[b].add(v)
                    for v in i.x['i']:
                        if type(v) is int and v not in dfn[b]:
                            use[b].add(v)
                if i.op == 'call' and type(i.x['f']) is int and i.x['f'] not in dfn[b]:
                    use[b].add(i.x['f'])
                dfn[b].add(i.id)
        live_in = [set() for _ in range(n)]
        ch = True
        order = fn.rpo()[::-1]
        while ch:
            ch = False
            for b in order:
                out = set(phiuse[b])
                for s in fn.succs[b]:
                    out |= live_in[s]
                new = use[b] | (out - dfn[b])
                if new != live_in[b]:
                    live_in[b] = new
                    ch = True
        for b, l in enumerate(fn.bbs):
            live_in[b] = live_in[b] | {i.id for i in l if i.op == 'phi'}
        self.live_in = live_in
        self.phiuse = phiuse

    def _loops(self):
        # blocks in a cycle
        fn = self.fn
        index = {}
        low = {}
        onst = set()
        st = []
        comp = {}
        cnt = [0]
        for root in range(len(fn.bbs)):
            if root in index:
                continue
            work = [(root, 0)]
            while work:
                v, pi = work[-1]
                if pi == 0:
                    index[v] = low[v] = cnt[0]
                    cnt[0] += 1
                    st.append(v)
                    onst.add(v)
                rec = False
                su = fn.succs[v]
                while pi < len(su):
                    w = su[pi]
                    pi += 1
                    if w not in index:
                        work[-1] = (v, pi)
                        work.append((w, 0))
                        rec = True
                        break
                    elif w in onst:
                        low[v] = min(low[v], index[w])
                if rec:
                    continue
                work.pop()
                if work:
                    u = work[-1][0]
                    low[u] = min(low[u], low[v])
                if low[v] == index[v]:
                    c = []
                    while True:
                        w = st.pop()
                        onst.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    cyc = len(c) > 1 or v in fn.succs[v]
                    for w in c:
                        comp[w] = cyc
        self.inloop = comp

    # -- values --------------------------------------------------------------
    def val(self, st, o):
        if type(o) is int:
            v = st.env.get(o)
            if v is not None:
                return v
            i = self.fn.defs.get(o)
            if i is not None:
                if i.op == 'alloca':
                    return ('a', o, 0)
            return ('s', ('v', o))
        k = o[0]
        if k == 'i':
            return ('c', o[1])
        if k == 'null':
            return ('c', 0)
        if k == 'zero':
            return ('c', 0)
        if k == 'g':
            return ('g', o[1], 0)
        if k == 'gep' and o[2] is not None:
            return add(self.val(st, o[1]), o[2])
        if k == 'ce' and o[1] in ('inttoptr', 'ptrtoint'):
            return self.val(st, o[2])
        return ('s', ('k', repr(o)))

    def rng(self, st, v):
        k = v[0]
        if k == 'c':
            return (v[1], v[1], frozenset())
        if k in ('a', 'g'):
            return (1, INF, frozenset((0, -1)))
        if k == 's':
            return st.con.get(v, TOP)
        if k == '+':
            lo, hi, ne = self.rng(st, v[1])
            n = v[2]
            return (lo + n if lo > -INF else lo, hi + n if hi < INF else hi,
                    frozenset(x + n for x in ne))
        if k in ('cmp', 'not'):
            t = self.truth(st, v)
            if t is None:
                return (0, 1, frozenset())
            return (int(t), int(t), frozenset())
        return TOP

    def truth(self, st, v):
        k = v[0]
        if k == 'c':
            return v[1] != 0
        if k == 'not':
            t = self.truth(st, v[1])
            return None if t is None else not t
        if k == 'cmp':
            return self.cmp(st, v[1], v[2], v[3])
        lo, hi, ne = self.rng(st, v)
        if lo == hi == 0:
            return False
        if lo > 0 or hi < 0 or 0 in ne:
            return True
        return None

    def cmp(self, st, p, a, b):
        if a == b and a[0] in ('s', '+', 'a', 'g', 'c'):
            return p in ('eq', 'sge', 'sle', 'uge', 'ule')
        if a[0] == 'a' and b[0] == 'a' or a[0] == 'g' and b[0] == 'g':
            if p in ('eq', 'ne'):
                same = a == b
                return same if p == 'eq' else not same
            return None
        la, ha, na = self.rng(st, a)
        lb, hb, nb = self.rng(st, b)
        if p == 'eq' or p == 'ne':
            r = None
            if la == ha and lb == hb and la == lb:
                r = True
            elif ha < lb or hb < la:
                r = False
            elif la == ha and la in nb or lb == hb and lb in na:
                r = False
            if r is None:
                return None
            return r if p == 'eq' else not r
        if p[0] == 'u':
            if la < 0 or lb < 0:
                # constant viewed as unsigned
                if b[0] == 'c' and b[1] < 0 and la >= 0:
                    return p in ('ult', 'ule')
                return None
            p = 's' + p[1:]
        if p == 'slt':
            return True if ha < lb else False if la >= hb else None
        if p == 'sle':
            return True if ha <= lb else False if la > hb else None
        if p == 'sgt':
            return True if la > hb else False if ha <= lb else None
        if p == 'sge':
            return True if la >= hb else False if ha < lb else None
        return None

    def refine(self, st, v, t):
        """assume v is true/false; returns False if infeasible."""
        k = v[0]
        cur = self.truth(st, v)
        if cur is not None:
            return cur == t
        if k == 'not':
            return self.refine(st, v[1], not t)
        if k == 'cmp':
            p = v[1] if t else NEG.get(v[1])
            if p is None:
                return True
            a, b = v[2], v[3]
            # (cmp) != 0
            for x, y in ((a, b), (b, a)):
                if x[0] in ('cmp', 'not') and y[0] == 'c' and p in ('eq', 'ne'):
                    if y[1] in (0, 1):
                        return self.refine(st, x, (y[1] == 1) == (p == 'eq'))
            return self._ref1(st, p, a, b) and self._ref1(st, SWAP[p], b, a)
        if t:
            return self._ne(st, v, 0)
        return self._eq(st, v, 0)

    def _base(self, v):
        n = 0
        while v[0] == '+':
            n += v[2]
            v = v[1]
        return v, n

    def _set(self, st, v, lo=None, hi=None, ne=None):
        b, n = self._base(v)
        if b[0] != 's':
            return True
        l, h, e = st.con.get(b, TOP)
        if lo is not None:
            l = max(l, lo - n)
        if hi is not None:
            h = min(h, hi - n)
        if ne is not None:
            e = e | {ne - n}
        while l in e and l <= h:
            l += 1
        while h in e and h >= l:
            h -= 1
        if l > h:
            return False
        if len(e) > 8:
            e = frozenset(sorted(e)[:8])
        st.con[b] = (l, h, e)
        return True

    def _ne(self, st, v, n):
        return self._set(st, v, ne=n)

    def _eq(self, st, v, n):
        return self._set(st, v, lo=n, hi=n)

    def _ref1(self, st, p, a, b):
        lb, hb, _ = self.rng(st, b)
        if p == 'eq':
            return self._set(st, a, lo=lb if lb > -INF else None, hi=hb if hb < INF else None)
        if p == 'ne':
            if lb == hb:
                return self._ne(st, a, lb)
            return True
        if p[0] == 'u':
            la = self.rng(st, a)[0]
            if p in ('ult', 'ule') and lb >= 0 and hb < INF:
                return self._set(st, a, lo=0, hi=hb - (p == 'ult'))
            if p in ('ugt', 'uge') and la >= 0 and lb >= 0:
                return self._set(st, a, lo=lb + (p == 'ugt'))
            return True
        if p == 'slt':
            return self._set(st, a, hi=hb - 1) if hb < INF else True
        if p == 'sle':
            return self._set(st, a, hi=hb) if hb < INF else True
        if p == 'sgt':
            return self._set(st, a, lo=lb + 1) if lb > -INF else True
        if p == 'sge':
            return self._set(st, a, lo=lb) if lb > -INF else True
        return True

    def fresh(self, st, iid):
        """(Re)defines the symbol of instruction iid."""
        s = ('s', ('v', iid))
        if self.inloop.get(self.fn.defs[iid].bb):
            self.rename_old(st, s, ('s', ('o', iid)))
        st.con.pop(s, None)
        st.env.pop(iid, None)
        return s

    def rename_old(self, st, s, o):
        hit = False
        for k, v in list(st.env.items()):
            if v[0] in ('s', '+', 'cmp', 'not'):
                sv = syms_of(v)
                if o in sv:
                    del st.env[k]
                elif s in sv:
                    st.env[k] = subst(v, s, o)
        for k, v in list(st.cells.items()):
            base = k[0]
            if base[0] == 'p' and base[1] in (s, o):
                del st.cells[k]
                if base[1] == s:
                    st.cells[(('p', o), k[1])] = v if o not in syms_of(v[0]) else v
                continue
            sv = syms_of(v[0])
            if o in sv:
                del st.cells[k]
            elif s in sv:
                st.cells[k] = (subst(v[0], s, o), v[1])
        if s in st.con:
            st.con[o] = st.con[s]
        else:
            st.con.pop(o, None)
        self.prop.rename(self, st, s, o)

    # -- memory --------------------------------------------------------------
    def place(self, v):
        """(base, offset) of an address value or None."""
        if v[0] == 'a':
            return (('a', v[1]), v[2])
        if v[0] == 'g':
            return (('g', v[1]), v[2])
        if v[0] == 's':
            return (('p', v), 0)
        if v[0] == '+':
            b, n = self._base(v)
            if b[0] == 's':
                return (('p', b), n)
        return None

    def load(self, st, addr, size, iid):
        pl = self.place(addr)
        if pl is not None:
            c = st.cells.get(pl)
            if c is not None and c[1] == size:
                return c[0]
            f = self.filled(st, pl, size)
            if f is not None:
                return f
            s = self.fresh(st, iid)
            if pl[0] != ('p', s):
                st.cells[pl] = (s, size)
            return s
        return self.fresh(st, iid)

    def filled(self, st, pl, size):
        base, off = pl
        r = None
        for k, v in st.cells.items():
            if k[0] != base:
                continue
            if type(k[1]) is int:
                if k[1] < off + size and off < k[1] + v[1]:
                    return None
            elif k[1][1] <= off and off + size <= k[1][1] + k[1][2]:
                r = v[0]
        return r

    def store(self, st, addr, val, size):
        pl = self.place(addr)
        if pl is None:
            return
        base, off = pl
        for k in [k for k in st.cells if k[0] == base and type(k[1]) is int and k[1] != off]:
            sz = st.cells[k][1]
            if k[1] < off + size and off < k[1] + sz:
                del st.cells[k]
        st.cells[pl] = (val, size)

    def kill_base(self, st, base):
        for k in [k for k in st.cells if k[0] == base]:
            del st.cells[k]

    def kill_range(self, st, base, off, size):
        for k in [k for k in st.cells if k[0] == base]:
            if type(k[1]) is int:
                o, n = k[1], st.cells[k][1]
            else:
                o, n = k[1][1], k[1][2]
            if o < off + size and off < o + n:
                del st.cells[k]

    # -- execution -----------------------------------------------------------
    def exec_inst(self, st, i):
        """Returns None (st updated in place) or a list of states."""
        op = i.op
        if op == 'load':
            a = self.val(st, i.ops[0])
            self.prop.load(self, st, i, a)
            v = self.load(st, a, i.x['s'], i.id)
            st.env[i.id] = v
        elif op == 'store':
            v = self.val(st, i.ops[0])
            a = self.val(st, i.ops[1])
            self.prop.store(self, st, i, a, v)
            self.store(st, a, v, i.x['s'])
        elif op == 'getelementptr':
            b = self.val(st, i.ops[0])
            n = i.x.get('o')
            vs = i.x.get('v')
            if n is None:
                st.env[i.id] = self.fresh(st, i.id)
                return None
            if vs:
                for v, sc in vs:
                    lo, hi, _ = self.rng(st, self.val(st, v))
                    if lo == hi:
                        n += lo * sc
                    else:
                        st.env[i.id] = self.fresh(st, i.id)
                        self.prop.derive(self, st, i, b)
                        return None
            st.env[i.id] = add(b, n)
        elif op == 'icmp':
            st.env[i.id] = ('cmp', i.x['p'], self.val(st, i.ops[0]), self.val(st, i.ops[1]))
        elif op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze'):
            v = self.val(st, i.ops[0])
            if op == 'trunc' and v[0] == '+':
                lo, hi, _ = self.rng(st, v)
            st.env[i.id] = v
            if op == 'trunc' and v[0] == 'c':
                try:
                    w = int(i.ty[1:])
                    n = v[1] & ((1 << w) - 1)
                    if n >> (w - 1) and w > 1:
                        n -= 1 << w
                    st.env[i.id] = ('c', n)
                except ValueError:
                    pass
            elif op == 'zext' and v[0] == 'c' and v[1] < 0:
                w = int(i.x['from'][1:])
                st.env[i.id] = ('c', v[1] & ((1 << w) - 1))
        elif op in ('add', 'sub'):
            a, b = self.val(st, i.ops[0]), self.val(st, i.ops[1])
            if b[0] == 'c':
                st.env[i.id] = add(a, b[1] if op == 'add' else -b[1])
            elif a[0] == 'c' and op == 'add':
                st.env[i.id] = add(b, a[1])
            else:
                s = self.fresh(st, i.id)
                st.env[i.id] = s
                la, ha, _ = self.rng(st, a)
                lb, hb, _ = self.rng(st, b)
                if op == 'sub':
                    lb, hb = -hb, -lb
                lo = la + lb if la > -INF and lb > -INF else None
                hi = ha + hb if ha < INF and hb < INF else None
                if lo is not None or hi is not None:
                    self._set(st, s, lo, hi)
        elif op == 'xor':
            a, b = self.val(st, i.ops[0]), self.val(st, i.ops[1])
            if i.ty == 'i1' and b[0] == 'c':
                st.env[i.id] = ('not', a) if b[1] else a
            else:
                st.env[i.id] = self.fresh(st, i.id)
        elif op in ('and', 'or', 'mul', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            a, b = self.val(st, i.ops[0]), self.val(st, i.ops[1])
            r = None
            if a[0] == 'c' and b[0] == 'c':
                x, y = a[1], b[1]
                try:
                    if op == 'and':
                        r = x & y
                    elif op == 'or':
                        r = x | y
                    elif op == 'mul':
                        r = x * y
                    elif op == 'shl' and 0 <= y < 64:
                        w = int(i.ty[1:])
                        r = (x << y) & ((1 << w) - 1)
                        if r >> (w - 1):
                            r -= 1 << w
                    elif op in ('lshr', 'ashr') and x >= 0 and y >= 0:
                        r = x >> y
                    elif op == 'udiv' and x >= 0 and y > 0:
                        r = x // y
                except ValueError:
                    r = None
            if r is not None:
                st.env[i.id] = ('c', r)
                return None
            if op == 'and' and (a == ('c', 0) or b == ('c', 0)):
                st.env[i.id] = ('c', 0)
                return None
            if op == 'mul' and a == ('c', 1):
                st.env[i.id] = b
                return None
            if b == (('c', 1) if op in ('mul', 'udiv') else ('c', 0)) and op in ('or', 'mul', 'shl', 'lshr', 'udiv'):
                st.env[i.id] = a
                return None
            if op == 'or' and a == ('c', 0):
                st.env[i.id] = b
                return None
            # bit tests: x & C keyed structurally so that repeated tests of
            # the same value agree
            if op == 'and' and b[0] == 'c' and a[0] == 's':
                self.prop.use(self, st, i, a)
                s = ('s', ('and', a[1], b[1]))
                if s not in st.con:
                    st.con[s] = (0, b[1], frozenset()) if b[1] >= 0 else TOP
                st.env[i.id] = s
                return None
            self.prop.use(self, st, i, a)
            self.prop.use(self, st, i, b)
            s = self.fresh(st, i.id)
            st.env[i.id] = s
            if op == 'and' and b[0] == 'c' and b[1] >= 0:
                self._set(st, s, 0, b[1])
            if op == 'or' and b[0] == 'c' and b[1] > 0:
                self._set(st, s, ne=0)
        elif op == 'select':
            c = self.val(st, i.ops[0])
            a, b = self.val(st, i.ops[1]), self.val(st, i.ops[2])
            if a == b:
                st.env[i.id] = a
                return None
            t = self.truth(st, c)
            if t is not None:
                st.env[i.id] = a if t else b
                return None
            s2 = st.copy()
            res = []
            if self.refine(st, c, True):
                st.env[i.id] = a
                res.append(st)
            if self.refine(s2, c, False):
                s2.env[i.id] = b
                res.append(s2)
            return res
        elif op == 'call':
            return self.exec_call(st, i)
        elif op == 'alloca':
            if self.inloop.get(i.bb):
                self.kill_base(st, ('a', i.id))
        elif op in ('extractvalue', 'insertvalue'):
            if op == 'extractvalue' and type(i.ops[0]) is int:
                a = self.val(st, i.ops[0])
                if a[0] == 's':
                    s = ('s', ('ev', a[1], tuple(i.x['idx'])))
                    st.env[i.id] = s
                    return None
            if op == 'insertvalue':
                self.prop.use(self, st, i, self.val(st, i.ops[1]))
            st.env[i.id] = self.fresh(st, i.id)
        elif op in ('atomicrmw', 'cmpxchg'):
            a = self.val(st, i.ops[0])
            r = self.prop.atomic(self, st, i, a)
            if r is not None:
                return r
            st.env[i.id] = self.fresh(st, i.id)
            pl = self.place(a)
            if pl:
                st.cells.pop(pl, None)
        elif op == 'fcmp' or op == 'fence':
            if op == 'fcmp':
                st.env[i.id] = self.fresh(st, i.id)
        else:
            st.env[i.id] = self.fresh(st, i.id)
        return None

    MEMSET = ('llvm.memset.p0.i64', 'memset')
    MEMCPY = ('llvm.memcpy.p0.p0.i64', 'memcpy', 'llvm.memmove.p0.p0.i64', 'memmove')
    PURE = frozenset(['llvm.objectsize.i64.p0', 'strlen', 'memcmp', 'strcmp', 'htonl',
                      'ntohl', '__errno_location', 'llvm.bswap.i32', 'llvm.bswap.i64',
                      'llvm.bswap.i16', 'llvm.stacksave.p0', 'llvm.stackrestore.p0',
                      'llvm.expect.i64', 'llvm.lifetime.start.p0', 'llvm.lifetime.end.p0'])

    def exec_call(self, st, i):
        c = i.callee
        if c is not None and c.startswith('llvm.'):
            if c in self.MEMSET:
                a = self.val(st, i.ops[0])
                n = self.val(st, i.ops[2])
                pl = self.place(a)
                if pl and n[0] == 'c':
                    self.kill_range(st, pl[0], pl[1], n[1])
                    v = self.val(st, i.ops[1])
                    if v[0] == 'c' and v[1] in (0, -1) and n[1] <= 4096:
                        # remembered lazily through 4/8-byte cells
                        st.cells[(pl[0], ('fill', pl[1], n[1]))] = (v, 0)
                elif pl:
                    self.kill_base(st, pl[0])
                return None
            if c in self.MEMCPY:
                return self._memcpy(st, i)
            if c.startswith(('llvm.lifetime', 'llvm.va', 'llvm.assume', 'llvm.prefetch',
                             'llvm.stackrestore')):
                return None
            st.env[i.id] = self.fresh(st, i.id)
            return None
        args = [self.val(st, o) for o in i.ops]
        r = self.prop.call(self, st, i, c, args)
        if r is not None:
            return r
        self.clobber(st, i, c, args)
        if i.ty != 'void':
            st.env[i.id] = self.fresh(st, i.id)
        return None

    def clobber(self, st, i, c, args):
        if c in self.PURE:
            return
        ro = self.prop.readonly_args(self, i, c)
        for n, a in enumerate(args):
            if n in ro:
                continue
            pl = self.place(a)
            if pl is not None:
                self.kill_base(st, pl[0])

    def _memcpy(self, st, i):
        d, s, n = (self.val(st, o) for o in i.ops[:3])
        self.prop.memcpy(self, st, i, d, s, n)
        pd, ps = self.place(d), self.place(s)
        if pd is None:
            return None
        if n[0] != 'c':
            self.kill_base(st, pd[0])
            return None
        cp = []
        if ps is not None:
            for k, v in st.cells.items():
                if k[0] == ps[0] and type(k[1]) is int and ps[1] <= k[1] < ps[1] + n[1]:
                    cp.append((k[1] - ps[1], v))
        self.kill_range(st, pd[0], pd[1], n[1])
        for off, v in cp:
            st.cells[(pd[0], pd[1] + off)] = v
        return None

    def prune(self, st, b):
        live = self.live_in[b]
        env = st.env
        if len(env) > len(live):
            st.env = {k: env[k] for k in live if k in env}
        keep = set()
        for v in st.env.values():
            keep.update(syms_of(v))
        for k, v in st.cells.items():
            keep.update(syms_of(v[0]))
            if k[0][0] == 'p':
                keep.add(k[0][1])
        keep |= self.prop.prop_syms(st)
        for o in live:
            keep.add(('s', ('v', o)))
        con = {}
        for k, v in st.con.items():
            if k in keep:
                con[k] = v
            elif k[1][0] in ('and', 'ev') and ('s', k[1][1]) in keep:
                con[k] = v
        st.con = con

    def join(self, a, b, widen):
        """a := a join b; returns True when a changed."""
        ch = False
        env = {}
        for k, v in a.env.items():
            if b.env.get(k) == v:
                env[k] = v
            else:
                w = b.env.get(k)
                if w is None and v == ('s', ('v', k)):
                    env[k] = v
                    continue
                # keep ranges: fresh symbol with hull of both
                s = ('s', ('v', k))
                if v != s:
                    ch = True
                if w is None:
                    w = s
                l1, h1, e1 = self.rng(a, v)
                l2, h2, e2 = self.rng(b, w)
                lo, hi = min(l1, l2), max(h1, h2)
                e = frozenset(x for x in (e1 | e2 | {0, -1}) if (x in e1 or x < l1 or x > h1) and (x in e2 or x < l2 or x > h2) and lo <= x <= hi)
                if widen:
                    if lo < l1:
                        lo = 0 if lo >= 0 else -INF
                    if hi > h1:
                        hi = INF
                if v == s:
                    env[k] = s
                    if (lo, hi, e) != a.con.get(s, TOP):
                        ch = True
                    a.con[s] = b.con[s] = (lo, hi, e)
                elif s not in syms_of(v):
                    env[k] = s
                    a.con[s] = (lo, hi, e)
                    b.con[s] = (lo, hi, e)
                else:
                    ch = True
        a.env = env
        cells = {}
        for k, v in a.cells.items():
            w = b.cells.get(k)
            if w == v:
                cells[k] = v
            elif w is not None and w[1] == v[1] and type(k[1]) is int:
                ch = True
                s = ('s', ('jc', k))
                if s in syms_of(v[0]) and v[0] != s:
                    continue
                if s in syms_of(w[0]) and w[0] != s:
                    continue
                l1, h1, e1 = self.rng(a, v[0])
                l2, h2, e2 = self.rng(b, w[0])
                lo, hi = min(l1, l2), max(h1, h2)
                e = frozenset(x for x in (e1 | e2 | {0, -1}) if (x in e1 or x < l1 or x > h1) and (x in e2 or x < l2 or x > h2) and lo <= x <= hi)
                if widen:
                    if lo < l1:
                        lo = 0 if lo >= 0 else -INF
                    if hi > h1:
                        hi = INF
                cells[k] = (s, v[1])
                a.con[s] = (lo, hi, e)
                b.con[s] = (lo, hi, e)
            else:
                ch = True
        a.cells = cells
        con = {}
        for k, v in a.con.items():
            w = b.con.get(k)
            if w is None:
                ch = True
                continue
            if v == w:
                con[k] = v
                continue
            lo, hi = min(v[0], w[0]), max(v[1], w[1])
            l1, h1, e1 = v
            l2, h2, e2 = w
            e = frozenset(x for x in (e1 | e2 | {0, -1}) if (x in e1 or x < l1 or x > h1) and (x in e2 or x < l2 or x > h2) and lo <= x <= hi)
            if widen:
                if lo < v[0]:
                    lo = 0 if lo >= 0 else -INF
                if hi > v[1]:
                    hi = INF
            nv = (lo, hi, e)
            if nv != v:
                ch = True
            if nv != TOP:
                con[k] = nv
        a.con = con
        return ch

    def run(self):
        fn = self.fn
        t0 = time.time()
        st = State()
        self.prop.init(self, st)
        states = [dict() for _ in fn.bbs]      # key -> State
        visits = defaultdict(int)
        order = {b: n for n, b in enumerate(fn.rpo())}
        heads = {t for b in order for t in fn.succs[b] if order.get(t, 0) <= order[b]}
        import heapq
        key = self.prop.key(st)
        states[0][key] = st
        retb = []
        for l in fn.bbs:
            t = l[-1]
            if t.op == 'ret' and t.ops and len([i for i in l if i.op != 'phi']) <= 3:
                retb.append(t.ops[0])
            else:
                retb.append(None)
        work = [(0, 0, 0, key)]
        queued = {(0, key)}
        tick = 0
        while work:
            _, _, b, key = heapq.heappop(work)
            queued.discard((b, key))
            self.steps += 1
            if self.steps > self.max_states or time.time() - t0 > self.max_time:
                raise Limit(fn.name)
            cur = [states[b][key].copy()]
            l = fn.bbs[b]
            for i in l:
                if i.op == 'phi':
                    continue
                if i.op in ('br', 'switch', 'ret', 'unreachable'):
                    break
                nxt = []
                for s in cur:
                    r = self.exec_inst(s, i)
                    if r is None:
                        nxt.append(s)
                    else:
                        nxt.extend(r)
                cur = nxt
                if len(cur) > 64:
                    raise Limit(fn.name)
                if not cur:
                    break
            if not cur:
                continue
            t = l[-1]
            for s in cur:
                if t.op == 'ret':
                    v = self.val(s, t.ops[0]) if t.ops else None
                    self.prop.ret(self, s, t, v)
                    continue
                if t.op == 'unreachable':
                    continue
                outs = []
                if t.op == 'br':
                    if not t.ops:
                        outs.append((t.x[0], s))
                    elif t.x[0] == t.x[1]:
                        outs.append((t.x[0], s))
                    else:
                        c = self.val(s, t.ops[0])
                        s2 = s.copy()
                        if self.refine(s, c, True) and self.prop.branch(self, s, t, c, True):
                            outs.append((t.x[0], s))
                        if self.refine(s2, c, False) and self.prop.branch(self, s2, t, c, False):
                            outs.append((t.x[1], s2))
                elif t.op == 'switch':
                    c = self.val(s, t.ops[0])
                    by = {}
                    for cv, tb in t.x[1:]:
                        by.setdefault(tb, []).append(cv)
                    d = s.copy()
                    okd = True
                    for cv, tb in t.x[1:]:
                        okd = okd and self.refine(d, ('cmp', 'ne', c, ('c', cv)), True)
                    for tb, cvs in by.items():
                        s2 = s.copy()
                        feas = [cv for cv in cvs if self.cmp(s, 'eq', c, ('c', cv)) is not False]
                        if not feas:
                            continue
                        if len(feas) == 1:
                            if not self.refine(s2, ('cmp', 'eq', c, ('c', feas[0])), True):
                                continue
                        else:
                            self._set(s2, c, min(feas), max(feas))
                        outs.append((tb, s2))
                    if okd:
                        outs.append((t.x[0], d))
                for tb, s2 in outs:
                    s2 = s2 if len(outs) == 1 else s2
                    self._enter(s2, b, tb)
                    s2.trace = (b, tb, s2.trace) if s2.trace is None or True else None
                    k2 = self.prop.key(s2)
                    if retb[tb] is not None:
                        # return blocks: one state per returned value
                        k2 = (k2, self.val(s2, retb[tb]))
                    if self.prop.coarse:
                        # correlated conditions: do not merge what the next branch tells apart
                        for i in fn.bbs[tb]:
                            if i.op != 'phi':
                                break
                            if i.ty == 'i1':
                                v = s2.env.get(i.id)
                                k2 = (k2, v if v is not None and v[0] == 'c' else None)
                    if self.prop.coarse and k2 not in states[tb] and \
                            len(states[tb]) >= (self.prop.coarse_loop if tb in heads else self.prop.coarse):
                        k2 = ('*',) if retb[tb] is None else ('*', self.val(s2, retb[tb])[0])
                    old = states[tb].get(k2)
                    if old is None:
                        states[tb][k2] = s2
                        if len(states[tb]) > 4000:
                            raise Limit(fn.name)
                    else:
                        visits[(tb, k2)] += 1
                        pc = False
                        if old.prop != s2.prop and self.prop.coarse:
                            m = self.prop.merge(self, old, s2)
                            pc = m != old.prop
                            old.prop = m
                        if not self.join(old, s2, visits[(tb, k2)] > 4) and not pc:
                            continue
                    if (tb, k2) not in queued:
                        queued.add((tb, k2))
                        tick += 1
                        heapq.heappush(work, (order.get(tb, 1 << 30), tick, tb, k2))
        self.states = states

    def _enter(self, st, a, b):
        phis = []
        for i in self.fn.bbs[b]:
            if i.op != 'phi':
                break
            for v, p in zip(i.ops, i.x):
                if p == a:
                    phis.append((i.id, self.val(st, v)))
                    break
        if phis and self.inloop.get(b):
            for iid, _ in phis:
                s, o = ('s', ('v', iid)), ('s', ('o', iid))
                used = any(s in syms_of(v) for v in st.env.values()) or \
                    any(s in syms_of(v[0]) or k[0] == ('p', s) for k, v in st.cells.items()) or \
                    any(s in syms_of(v) for _, v in phis) or s in self.prop.prop_syms(st)
                if used:
                    self.rename_old(st, s, o)
                    phis = [(k, subst(v, s, o)) for k, v in phis]
                st.con.pop(s, None)
        for iid, v in phis:
            st.env[iid] = v
        self.prune(st, b)

    def path(self, st, n=14):
        """Line trail of the last branch decisions (for diagnosis)."""
        out = []
        t = st.trace
        while t and len(out) < n:
            a, b, t = t
            i = self.fn.bbs[b][0]
            for i in self.fn.bbs[b]:
                if i.loc:
                    break
            if i.loc:
                l = i.loc[-3]
                if not out or out[-1] != l:
                    out.append(l)
        return '->'.join(str(x) for x in reversed(out))


class Prop:
    """Default (empty) property."""
    coarse_loop = 4
    coarse = 0      # above so many states in a block, further ones are merged (prop.merge)

    def init(self, eng, st): pass
    def key(self, st): return st.prop
    def call(self, eng, st, inst, callee, args): return None
    def store(self, eng, st, inst, addr, val): pass
    def load(self, eng, st, inst, addr): pass
    def memcpy(self, eng, st, inst, d, s, n): pass
    def atomic(self, eng, st, inst, addr): return None
    def derive(self, eng, st, inst, base): pass
    def ret(self, eng, st, inst, val): pass
    def branch(self, eng, st, inst, cond, taken): return True
    def rename(self, eng, st, old, new): pass
    def prop_syms(self, st): return set()
    def use(self, eng, st, inst, v): pass
    def readonly_args(self, eng, inst, callee): return ()
