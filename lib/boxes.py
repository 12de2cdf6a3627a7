"""Local containers (strings, vectors, hash tables, bit buffers) whose storage came from the
heap: on every path to a return they are wiped, moved or handed over."""
import re
from esp import Prop, syms_of

# primitive -> (argument, kind)
GROW = {'__sb_grow': 'sb', '__qvector_grow': 'qv', '__qvector_splice': 'qv',
        '__qvector_optimize': 'qv', 'qhash_set_minsize': 'qh', '__bb_grow': 'bb'}
PUT = re.compile(r'^__qhash_put(32|64|_ptr|_vec|\w*)$')
WIPE = {'sb_wipe': 'sb', 'sb_detach': 'sb', 'qvector_wipe': 'qv', '__qvector_wipe': 'qv',
        'qhash_wipe': 'qh', 'bb_wipe': 'bb', 'lstr_transfer_sb': 'sb', '__sb_wipe': 'sb'}
MPOFF = {'sb': 24, 'qv': 8, 'qh': 16, 'bb': 32}
HEAPS = ('mem_pool_libc', 'mem_pool_static')


def prim(c):
    if c in GROW:
        return 'grow', GROW[c]
    if c in WIPE:
        return 'wipe', WIPE[c]
    if c and PUT.match(c):
        return 'grow', 'qh'
    return None


def arg_root(fn, o):
    """('v' argument number or 'a' alloca id, offset) a pointer operand stands for."""
    off = 0
    for _ in range(12):
        if type(o) is not int:
            return None
        if o < fn.nargs:
            return ('v', o, off)
        i = fn.defs.get(o)
        if i is None:
            return None
        if i.op == 'alloca':
            return ('a', o, off)
        if i.op == 'getelementptr' and i.x.get('o') is not None and not i.x.get('v'):
            off += i.x['o']
            o = i.ops[0]
        elif i.op in ('bitcast', 'freeze', 'addrspacecast'):
            o = i.ops[0]
        else:
            return None
    return None


class Effects:
    """Which functions make a container they are given grow, and which wipe it."""

    def __init__(self, mods):
        self.ext, self.loc = {}, {}
        calls = []
        for m in mods.values():
            for f in m.fns.values():
                for i in f.calls():
                    if not i.callee:
                        continue
                    for n, o in enumerate(i.ops):
                        r = arg_root(f, o)
                        if r and r[0] == 'v':
                            calls.append((f, r[1], r[2], i.callee, n))
        while True:
            ch = False
            for f, k, off, c, n in calls:
                for what, o2, kind in self.of(f.tu, c, n):
                    d = self.loc if f.link == 'int' else self.ext
                    key = (f.tu, f.name, k) if f.link == 'int' else (f.name, k)
                    e = (what, off + o2, kind)
                    if e not in d.setdefault(key, set()):
                        d[key].add(e)
                        ch = True
            if not ch:
                break

    def of(self, tu, c, n):
        p = prim(c)
        if p:
            return ((p[0], 0, p[1]),) if n == 0 or c == 'lstr_transfer_sb' and n == 1 else ()
        return tuple(self.loc.get((tu, c, n)) or self.ext.get((c, n)) or ())

    def boxes(self, fn):
        """{(alloca, offset): kind} of the containers local to a function that may grow"""
        r = {}
        for i in fn.calls():
            if not i.callee:
                continue
            for n, o in enumerate(i.ops):
                a = arg_root(fn, o)
                if a and a[0] == 'a':
                    for what, off, kind in self.of(fn.tu, i.callee, n):
                        if what == 'grow':
                            r[(a[1], a[2] + off)] = kind
        return r


class Boxes(Prop):
    """prop state: frozenset of (alloca, offset, kind, growing instruction)"""

    def __init__(self, eff, fn):
        self.eff = eff
        self.tu = fn.tu
        self.cand = eff.boxes(fn)
        self.reports = {}
        self.sites = set()

    def init(self, eng, st):
        st.prop = frozenset()

    def clean(self, st, base, lo=None, hi=None):
        if any(e[0] == base for e in st.prop):
            st.prop = frozenset(e for e in st.prop if e[0] != base or
                                lo is not None and not (lo <= e[1] < hi))

    def heap(self, v):
        return v == ('c', 0) or v[0] == 'g' and v[1] in HEAPS

    def owner(self, st, v):
        """boxes whose storage pointer is v"""
        r = []
        for e in st.prop:
            c = st.cells.get((('a', e[0]), e[1]))
            if c is not None and (c[0] == v or c[0][0] == 's' and c[0] in syms_of(v)):
                r.append(e)
        return r

    def call(self, eng, st, inst, c, args):
        grew, keep = [], {}
        for (a, off), kind in self.cand.items():
            k = (('a', a), off + MPOFF[kind])
            if k in st.cells:
                keep[k] = st.cells[k]
        for n, v in enumerate(args):
            pl = eng.place(v)
            if pl is None or pl[0][0] != 'a':
                if c in ('mp_ifree', 'free', 'ifree') or c == 'mp_delete':
                    for e in self.owner(st, v):
                        st.prop = st.prop - {e}
                continue
            a = pl[0][1]
            if c is None:
                self.clean(st, a)
                continue
            if c == 'qhash_init':
                keep[(pl[0], pl[1] + 16)] = (args[4], 8)
            effs = self.eff.of(self.tu, c, n)
            wiped = {(o, k) for w, o, k in effs if w == 'wipe'}
            for w, o, k in effs:
                off = pl[1] + o
                if w == 'wipe':
                    self.clean(st, a, off, off + 1)
                elif (o, k) not in wiped and self.cand.get((a, off)) == k:
                    m = keep.get((pl[0], off + MPOFF[k]))
                    if m is None:
                        m = (eng.filled(st, (pl[0], off + MPOFF[k]), 8),)
                    if m[0] is not None and self.heap(m[0]):
                        self.sites.add((a, off, k))
                        if not any(e[:2] == (a, off) for e in st.prop):
                            grew.append((a, off, k, inst.id))
        st.prop = st.prop | frozenset(grew)
        if c in ('exit', '_exit', 'abort', '_Exit'):
            return []
        eng.clobber(st, inst, c, args)
        st.cells.update(keep)
        if inst.ty != 'void':
            st.env[inst.id] = eng.fresh(st, inst.id)
        return [st]

    def store(self, eng, st, inst, addr, val):
        pl = eng.place(addr)
        for e in self.owner(st, val):
            if pl is None or pl[0] != ('a', e[0]):
                st.prop = st.prop - {e}
        if val[0] == 'a' and (pl is None or pl[0] != ('a', val[1])):
            self.clean(st, val[1])

    def memcpy(self, eng, st, inst, d, s, n):
        pl = eng.place(s)
        if pl is not None and pl[0][0] == 'a':
            if n[0] == 'c':
                self.clean(st, pl[0][1], pl[1], pl[1] + n[1])
            else:
                self.clean(st, pl[0][1])

    def ret(self, eng, st, inst, val):
        if val is not None:
            for e in self.owner(st, val):
                st.prop = st.prop - {e}
        for e in st.prop:
            self.reports.setdefault(e, (inst, eng.fn.defs[e[3]], eng.path(st)))
