"""Typestate of operating-system handles: every handle acquired by a function is,
on every path to a return, released exactly once, returned, or handed over."""
from esp import Engine, Prop, State, Limit, syms_of, subst, INF, TOP

FAIL_NEG = 'neg'      # -1 on failure
FAIL_NULL = 'null'
FAIL_MAP = 'map'      # MAP_FAILED

ACQ = {}
for n in ('open', 'open64', 'openat', 'openat64', 'creat', 'socket', 'accept', 'accept4',
          'dup', 'eventfd', 'epoll_create', 'epoll_create1', 'inotify_init',
          'inotify_init1', 'mkstemp', 'mkostemp', 'mkstemp64', 'signalfd',
          'timerfd_create', 'memfd_create'):
    ACQ[n] = ('fd', FAIL_NEG)
for n in ('fopen', 'fopen64', 'tmpfile', 'popen'):
    ACQ[n] = ('FILE', FAIL_NULL)
for n in ('opendir',):
    ACQ[n] = ('DIR', FAIL_NULL)
for n in ('gzopen', 'gzopen64'):
    ACQ[n] = ('gz', FAIL_NULL)
for n in ('mmap', 'mmap64'):
    ACQ[n] = ('map', FAIL_MAP)
for n in ('dlopen', 'dlmopen'):
    ACQ[n] = ('dl', FAIL_NULL)
# conversions: consume the descriptor on success only
CONV = {'fdopen': ('FILE', FAIL_NULL), 'fdopendir': ('DIR', FAIL_NULL),
        'gzdopen': ('gz', FAIL_NULL)}
REL = {'close': 'fd', 'fclose': 'FILE', 'pclose': 'FILE', 'closedir': 'DIR',
       'gzclose': 'gz', 'gzclose_r': 'gz', 'gzclose_w': 'gz', 'munmap': 'map', 'dlclose': 'dl'}
PAIR = ('pipe', 'pipe2', 'socketpair')


class Summaries:
    def __init__(self, index, cls=None):
        self.cls = cls or Handles
        self.index = index       # name -> Fn (external linkage, whole program)
        self.memo = {}
        self.busy = set()
        self.acq = dict(ACQ)     # + wrappers found in the repository
        self.lacq = {}           # (tu, static function) -> same
        self.retarg = {}         # wrapper -> arguments it may return unchanged
        self.local = {}

    def param(self, fn, k, kind):
        """effect of passing a live handle as argument k: 'borrow', 'consume',
        'escape' or 'mixed'."""
        key = (fn.name, fn.tu, k, kind)
        if key in self.memo:
            return self.memo[key]
        if key in self.busy:
            return 'borrow'
        self.busy.add(key)
        try:
            p = self.cls(self, entry=(kind, k), tu=fn.tu)
            e = Engine(fn, p, max_time=20, max_states=20000)
            e.run()
            outs = p.entry_out
            if not outs or outs == {'live'}:
                r = 'borrow'
            elif outs == {'rel'}:
                r = 'consume'
            elif 'esc' in outs:
                r = 'escape'
            else:
                r = 'mixed'
        except Limit:
            r = 'escape'
        self.busy.discard(key)
        self.memo[key] = r
        return r


class Handles(Prop):
    """prop state: frozenset of (kind, sym, acq inst id, 'live'|'rel')"""

    def __init__(self, summ, entry=None, tu=None):
        self.summ = summ
        self.tu = tu
        self.retargs = set()
        self.entry = entry
        self.entry_out = set()
        self.reports = {}
        self.sites = set()
        self.rets = set()
        self.releases = 0

    def init(self, eng, st):
        st.prop = frozenset()
        if self.entry:
            kind, k = self.entry
            s = ('s', ('v', k))
            st.prop = frozenset([(kind, s, -1, 'live')])
            if kind == 'fd':
                st.con[s] = (0, INF, frozenset())
            else:
                st.con[s] = (-INF, INF, frozenset((0, -1)))

    def rename(self, eng, st, old, new):
        st.prop = frozenset((k, subst(v, old, new), a, s) for k, v, a, s in st.prop
                            if new not in syms_of(v) or s == 'live')

    def prop_syms(self, st):
        r = set()
        for k, v, a, s in st.prop:
            r.update(syms_of(v))
        return r

    def find(self, st, v):
        for e in st.prop:
            if e[1] == v:
                return e
        return None

    def drop(self, st, e, rel=False):
        st.prop = st.prop - {e}
        if rel:
            st.prop = st.prop | {(e[0], e[1], e[2], 'rel')}
        if e[2] == -1 and self.entry and not rel:
            self.entry_out.add('esc')

    def report(self, eng, st, inst, what, e):
        a = eng.fn.defs.get(e[2])
        self.reports.setdefault((what, e[0], e[2], inst.id if what != 'leak' else 0), (inst, a, eng.path(st)))

    # -- escapes
    def holds(self, st, v):
        return [e for e in st.prop if e[3] == 'live' and (e[1] == v or e[1] in syms_of(v) and v[0] in ('s', '+'))]

    def store(self, eng, st, inst, addr, val):
        hs = self.holds(st, val)
        if not hs:
            return
        pl = eng.place(addr)
        if pl is None or pl[0][0] != 'a':
            for e in hs:
                self.drop(st, e)

    def cells_with(self, eng, st, base):
        """live handles stored in cells of an alloca"""
        r = []
        for k, v in st.cells.items():
            if k[0] == base:
                r += self.holds(st, v[0])
        return r

    def call(self, eng, st, inst, c, args):
        ak = c if c in self.summ.acq else (self.tu, c)
        if c in self.summ.acq or ak in self.summ.lacq:
            kind, fail = self.summ.acq.get(c) or self.summ.lacq[ak]
            for n in self.summ.retarg.get(ak, ()):
                # f(handle or -1, ...): returns the argument when it is valid
                lo, hi, ne = eng.rng(st, args[n])
                if kind == 'fd' and hi < 0:
                    continue
                if kind == 'fd' and lo >= 0:
                    s2 = st.copy()
                    st.env[inst.id] = args[n]
                    s2.env[inst.id] = ('c', -1)
                    return [st, s2]
                return None
            if kind == 'map' and args[0] != ('c', 0):
                return None     # MAP_FIXED: replaces pages already owned
            self.sites.add((inst.id, kind, c))
            return self.acquire(eng, st, inst, kind, fail)
        if c in CONV:
            kind, fail = CONV[c]
            self.sites.add((inst.id, kind, c))
            src = self.holds(st, args[0]) if args else []
            return self.acquire(eng, st, inst, kind, fail, consume=src)
        if c in PAIR:
            self.sites.add((inst.id, 'fd', c))
            a = args[-1] if c != 'pipe2' else args[0]
            return self.acquire_pair(eng, st, inst, a)
        if c in REL and args:
            e = self.find(st, args[0])
            if e is not None:
                self.releases += 1
                if e[3] == 'rel':
                    self.report(eng, st, inst, 'double release', e)
                    return None
                s2 = st.copy()
                st.prop = (st.prop - {e}) | {(e[0], e[1], e[2], 'rel')}
                if e[2] == -1:
                    self.entry_out.add('rel')
                s2.prop = s2.prop - {e}
                if e[2] == -1:
                    pass
                v = eng.fresh(st, inst.id)
                st.env[inst.id] = v
                st.con[v] = (0, 0, frozenset())
                v2 = eng.fresh(s2, inst.id)
                s2.env[inst.id] = v2
                s2.con[v2] = (-INF, -1, frozenset())
                return [st, s2]
            return None
        if c is not None and (c == '_Exit' or c == 'exit'):
            return []
        # use after release / handing over
        for n, a in enumerate(args):
            e = self.find(st, a)
            if e is not None and e[3] == 'rel' and a[0] == 's' and self.is_use(c):
                self.report(eng, st, inst, 'use after release', e)
            hs = self.holds(st, a)
            if hs:
                eff = self.effect(c, n, hs[0][0])
                if eff in ('escape', 'mixed'):
                    for h in hs:
                        self.drop(st, h)
                elif eff == 'consume':
                    for h in hs:
                        if h[2] == -1:
                            self.entry_out.add('rel')
                        self.drop(st, h, rel=True)
            pl = eng.place(a)
            if pl is not None and pl[0][0] == 'a':
                for h in self.cells_with(eng, st, pl[0]):
                    if not self.borrows_ptr(c, n):
                        self.drop(st, h)
        return None

    BORROW_PTR = ('fstat', 'fstat64', 'getsockopt', 'poll', 'select', 'read', 'write')

    def borrows_ptr(self, c, n):
        return c in self.BORROW_PTR or (c or '').startswith(('e_', '__logger', 'logger', 'llvm.'))

    def is_use(self, c):
        return c is not None and c not in self.summ.index

    def effect(self, c, n, kind):
        if c is None:
            return 'escape'
        fn = self.summ.local.get((self.tu, c)) or self.summ.index.get(c)
        if fn is not None and n < fn.nargs:
            return self.summ.param(fn, n, kind)
        if c in ('el_fd_register_blk', 'el_fd_register'):
            return 'escape'
        return 'borrow'

    def acquire(self, eng, st, inst, kind, fail, consume=()):
        s2 = st.copy()
        v = eng.fresh(st, inst.id)
        st.env[inst.id] = v
        for e in consume:
            if e[2] == -1:
                self.entry_out.add('rel')
            st.prop = st.prop - {e}
        st.prop = frozenset(x for x in st.prop if x[1] != v) | {(kind, v, inst.id, 'live')}
        if fail == FAIL_NEG:
            st.con[v] = (0, INF, frozenset())
        else:
            st.con[v] = (-INF, INF, frozenset((0, -1)))
        v2 = eng.fresh(s2, inst.id)
        n = {FAIL_NEG: -1, FAIL_NULL: 0, FAIL_MAP: -1}[fail]
        s2.env[inst.id] = ('c', n)
        eng.clobber(st, inst, inst.callee, [eng.val(st, o) for o in inst.ops])
        eng.clobber(s2, inst, inst.callee, [eng.val(s2, o) for o in inst.ops])
        return [st, s2]

    def acquire_pair(self, eng, st, inst, a):
        s2 = st.copy()
        v = eng.fresh(st, inst.id)
        st.env[inst.id] = v
        st.con[v] = (0, 0, frozenset())
        pl = eng.place(a)
        if pl is not None and pl[0][0] == 'a':
            for n in (0, 1):
                h = ('s', ('pair', inst.id, n))
                eng.rename_old(st, h, ('s', ('opair', inst.id, n)))
                st.con[h] = (0, INF, frozenset())
                st.prop = st.prop | {('fd', h, inst.id, 'live')}
                st.cells[(pl[0], pl[1] + 4 * n)] = (h, 4)
        v2 = eng.fresh(s2, inst.id)
        s2.env[inst.id] = v2
        s2.con[v2] = (-INF, -1, frozenset())
        return [st, s2]

    def memcpy(self, eng, st, inst, d, s, n):
        ps, pd = eng.place(s), eng.place(d)
        if ps is not None and ps[0][0] == 'a' and (pd is None or pd[0][0] != 'a'):
            for h in self.cells_with(eng, st, ps[0]):
                self.drop(st, h)

    def branch(self, eng, st, inst, cond, taken):
        # handle found equal to some other (caller-owned) handle: same object
        c = cond
        while c[0] == 'not':
            c, taken = c[1], not taken
        if c[0] == 'cmp' and c[1] in ('eq', 'ne') and (c[1] == 'eq') == taken:
            for a, b in ((c[2], c[3]), (c[3], c[2])):
                if b[0] == 's' and a[0] == 's':
                    e = self.find(st, a)
                    if e is not None and e[3] == 'live' and not self.find(st, b):
                        self.drop(st, e)
        return True

    def use(self, eng, st, inst, v):
        """handle used in arithmetic or packed in an aggregate: no longer tracked"""
        for e in self.holds(st, v):
            self.drop(st, e)

    def ret(self, eng, st, inst, val):
        got = {e for e in st.prop if e[3] == 'live'}
        if val is not None:
            if val[0] == 's' and val[1][0] == 'v' and val[1][1] < eng.fn.nargs:
                self.retargs.add(val[1][1])
            for e in list(got):
                if e[1] in syms_of(val) and val[0] in ('s', '+'):
                    got.discard(e)
                    self.rets.add(e[0])
                    if e[2] == -1:
                        self.entry_out.add('esc')
        for e in got:
            if e[2] == -1:
                self.entry_out.add('live')
            else:
                self.report(eng, st, inst, 'leak', e)
