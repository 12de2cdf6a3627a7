"""Bytes (bits) known to be available in a stream (pstream_t, bit_stream_t) at each
unchecked access: a lower bound `avail >= v + n` per stream, path-sensitive (ESP)."""
import re
from esp import Prop, INF, add, syms_of, subst, NEG, SWAP

KEEP = r'^_*(ps|bs)_[a-z0-9_]*$'
SKIPU = {  # unchecked operations on *arg0: amount (constant, or ('arg', k)), consumes?
    '__ps_skip': (('arg', 1), 1), '__ps_getc': (1, 1), '__ps_skipc': (1, 0), '__ps_get_ps': (('arg', 1), 1),
    '__ps_get_data': (('arg', 1), 1), '__ps_hexdigit': (1, 1), '__ps_shrink': (('arg', 1), 1),
    '__ps_shrinkc': (1, 0), '__ps_clip': (('arg', 1), 'clip'),
    '__bs_skip': (('arg', 1), 1), '__bs_shrink': (('arg', 1), 1), '__bs_clip': (('arg', 1), 'clip'),
    '__bs_get_bit': (1, 1), '__bs_be_get_bit': (1, 1), '__bs_peek_bit': (1, 0), '__bs_be_peek_bit': (1, 0),
    '__bs_get_last_bit': (1, 1), '__bs_be_get_last_bit': (1, 1), '__bs_peek_last_bit': (1, 0),
    '__bs_be_peek_last_bit': (1, 0),
    '__bs_get_bits': (('arg', 1), 1), '__bs_be_get_bits': (('arg', 1), 1), '__bs_peek_bits': (('arg', 1), 0),
    '__bs_be_peek_bits': (('arg', 1), 0), '__bs_get_bs': (('arg', 1), 1),
    '__bs_get_bytes': (('arg*8', 1), 1),
}
for w, n in (('16', 2), ('24', 3), ('32', 4), ('48', 6), ('64', 8), ('8', 1)):
    for e in ('be', 'le', 'cpu'):
        SKIPU['__ps_get_%s%s' % (e, w)] = (n, 1)
        SKIPU['__ps_get_%s%s_signed' % (e, w)] = (n, 1)
SKIPU['__ps_get_float_le'] = SKIPU['__ps_get_float_be'] = (4, 1)
SKIPU['__ps_get_double_le'] = SKIPU['__ps_get_double_be'] = (8, 1)
# pointer-based unchecked operations: the pointer must lie in the stream
PTRU = ('__ps_skip_upto', '__ps_clip_at', '__ps_get_ps_upto', '__ps_extract_after', '__bs_skip_upto', '__bs_clip_at',
        '__bs_get_bs_upto', '__bs_extract_after')
HAS = {'ps_has': 1, 'bs_has': 1, 'bs_has_bytes': 8}
DONE = ('ps_done', 'bs_done')
LEN = ('ps_len', 'bs_len')
READ = re.compile(r'^(ps_(len|done|has|end|contains|is_.*|cmp|memequal|strequal|memcaseequal|strcaseequal|endswith.*|'
                  r'startswith.*|has_char_in_ctype|aligned.*|peekc|peekuc)|bs_(len|done|has|has_bytes|contains|is_aligned|'
                  r'equals|peek_.*|be_peek_.*|boundary.*))$')
# checked operations: on success consume a constant or argument amount
CHK = {'ps_skip': ('arg', 1), 'ps_getc': 1, 'ps_skipc': 1, 'ps_get_ps': ('arg', 1), 'ps_hexdigit': 1,
       'ps_shrink': ('arg', 1), 'bs_skip': ('arg', 1), 'bs_get_bit': 1, 'bs_be_get_bit': 1, 'bs_get_bits': ('arg', 1),
       'bs_be_get_bits': ('arg', 1), 'bs_get_bs': ('arg', 1), 'ps_shrinkc': 1, 'bs_shrink': ('arg', 1)}
for w, n in (('16', 2), ('24', 3), ('32', 4), ('48', 6), ('64', 8), ('8', 1)):
    for e in ('be', 'le', 'cpu'):
        CHK['ps_get_%s%s' % (e, w)] = n
# checked operations that leave the stream at something (minimum left on success)
ATCHR = {'ps_skip_uptochr': 1, 'ps_get_ps_chr': 1, 'ps_get_ps_lastchr': 1}
MAXF = 6


def streams(f):
    """places of byte streams: what the stream operations are called on"""
    r = set()

    def res(v, off=0):
        if type(v) is tuple and v[0] == 'gep' and v[2] is not None:
            return res(v[1], off + v[2])
        if type(v) is tuple and v[0] == 'g':
            return (('g', v[1]), off)
        if type(v) is not int:
            return None
        d = f.defs.get(v)
        if d is None:
            return (('p', ('s', ('v', v))), off)
        if d.op == 'alloca':
            return (('a', v), off)
        if d.op == 'getelementptr' and d.x.get('o') is not None and not d.x.get('v'):
            return res(d.ops[0], off + d.x['o'])
        return (('p', ('s', ('v', v))), off)
    for i in f.calls():
        c = i.callee
        if c and re.match(r'^_*ps_', c) and i.ops and not re.match(r'ps_(init.*|peekc|peekuc|is_equal|cmp)$', c):
            x = res(i.ops[0])
            if x:
                r.add(x)
    return r


class Avail(Prop):
    """prop: frozenset of (place, v, n): avail(place) >= v + n; v a value, ('c', 0) for constants"""

    def __init__(self, fn):
        self.reports = {}
        self.checked = set()
        self.proved = set()
        self.ptr = set()
        self.fn = fn

    def init(self, eng, st):
        st.prop = frozenset()
        self.known = streams(self.fn)
        spec = SKIPU.get(self.fn.name)
        if spec is not None:
            # the callers of an unchecked operation are held to its amount
            args = [('s', ('v', k)) for k in range(len(self.fn.args))]
            if self.fn.name == '__bs_get_bs':
                args = args[1:]
            self.addf(st, (('p', args[0]), 0), self.amount(spec[0], args))

    def key(self, st):
        best = {}
        for p, v, n in st.prop:
            if v[0] == 's':
                c = st.con.get(v)
                if c is not None and c[0] > -INF:
                    lo = c[0]
                    while lo in c[2]:
                        lo += 1
                    if lo + n > 0:
                        best[p] = max(best.get(p, 0), lo + n)
        for p, n in best.items():
            self.addf(st, p, ('c', n))
        return tuple(sorted((x for x in st.prop if x[1][0] == 'c'), key=repr))

    coarse = 60

    def merge(self, eng, a, b):
        def low(fs, v):
            """best n with avail >= v + n; v a value"""
            c = 0
            while v[0] == '+':
                c += v[2]
                v = v[1]
            if v[0] == 'c':
                v, c = ('c', 0), c + v[1]
            n = fs.get(v)
            return None if n is None else n - c
        fa, fb = {}, {}
        for fs, st in ((fa, a), (fb, b)):
            for p, v, n in st.prop:
                fs.setdefault(p, {})[v] = n
        out = set()
        for p in fa:
            if p not in fb:
                continue
            for v, n in fa[p].items():
                if v not in fb[p] or (v[0] == 'len' and n != fb[p][v]):
                    continue
                w = v[1] if v[0] == 'len' else v
                if w[0] == 's' and w[1][0] == 'v' and a.env.get(w[1][1], w) != b.env.get(w[1][1], w):
                    continue
                out.add((p, v, min(n, fb[p][v])))
            for k in set(a.env) | set(b.env):
                s = ('s', ('v', k))
                v, w = a.env.get(k, s), b.env.get(k, s)
                if v == w or v[0] not in ('s', '+', 'c') or w[0] not in ('s', '+', 'c'):
                    continue
                n, m = low(fa[p], v), low(fb[p], w)
                if n is not None and m is not None and min(n, m) >= -64:
                    out.add((p, s, min(n, m)))
        return frozenset(out)

    def prop_syms(self, st):
        r = set()
        for p, v, n in st.prop:
            r.update(syms_of(v[1] if v[0] == 'len' else v))
            if p[0][0] == 'p':
                r.update(syms_of(p[0][1]))
        return r

    def rename(self, eng, st, old, new):
        out = set()
        for p, v, n in st.prop:
            ex = v[0] == 'len'
            v = v[1] if ex else v
            if new in syms_of(v) or (p[0][0] == 'p' and p[0][1] == new):
                continue
            v = subst(v, old, new)
            if p[0][0] == 'p' and p[0][1] == old:
                p = (('p', new), p[1])
            out.add((p, ('len', v) if ex else v, n))
        st.prop = frozenset(out)

    # -- facts
    def facts(self, st, pl):
        return [(v, n) for p, v, n in st.prop if p == pl]

    def setf(self, st, pl, fs):
        """replaces the facts of pl, normalised"""
        lo, sy, ex = 0, {}, None
        for v, n in fs:
            if v[0] == 'len':
                ex = (pl, v, n)
                continue
            while v[0] == '+':
                n += v[2]
                v = v[1]
            if v[0] == 'c':
                lo = max(lo, v[1] + n)
            elif v[0] == 's':
                sy[v] = max(sy.get(v, -INF), n)
        out = [(pl, ('c', 0), min(lo, 64))] if lo > 0 else []
        for v, n in sorted(sy.items(), key=repr)[:MAXF]:
            if n >= -64:
                out.append((pl, v, n))
        if ex is not None:
            out.append(ex)
        st.prop = frozenset([x for x in st.prop if x[0] != pl] + out)

    def addf(self, st, pl, v, n=0):
        self.setf(st, pl, self.facts(st, pl) + [(v, n)])

    def has(self, eng, st, pl, v, n=0):
        """avail >= v + n known?"""
        while v[0] == '+':
            n += v[2]
            v = v[1]
        if v[0] == 'c':
            v, n = ('c', 0), n + v[1]
            if n <= 0:
                return True
        lo_needed = None
        _, hi, _ = self.rng(eng, st, v)
        for w, m in self.facts(st, pl):
            if w[0] == 'len':
                continue
            if w == v and m >= n:
                return True
            lo, _, _ = self.rng(eng, st, w)
            if lo > -INF and hi < INF and lo + m >= hi + n:
                return True
        if hi < INF and hi + n <= 0:
            return True
        return False

    def rng(self, eng, st, v):
        if v[0] == 'c':
            return 0, 0, 0
        lo, hi, e = eng.rng(st, v)
        while lo in e:
            lo += 1
        return lo, hi, e

    def consume(self, eng, st, pl, v):
        n = 0
        b = v
        while b[0] == '+':
            n += b[2]
            b = b[1]
        if b[0] == 'c':
            n += b[1]
            self.setf(st, pl, [(w, m - n) for w, m in self.facts(st, pl)])
            return
        left = 0
        for w, m in self.facts(st, pl):
            if w == b:
                left = max(left, m - n)
        self.setf(st, pl, [(('c', 0), left)])

    def pl(self, eng, v):
        return eng.place(v)

    def need(self, eng, st, i, pl, v, what):
        k = (i.id, what)
        self.checked.add(k)
        if self.has(eng, st, pl, v):
            self.proved.add(k)
            return
        if k not in self.reports:
            self.reports[k] = (i, what, v, eng.path(st), sorted(self.facts(st, pl), key=repr))

    def amount(self, spec, args):
        if type(spec) is int:
            return ('c', spec)
        if spec[0] == 'arg':
            return args[spec[1]]
        if args[spec[1]][0] == 'c':
            return ('c', args[spec[1]][1] * 8)
        return ('s', ('x8', args[spec[1]]))

    # -- callbacks
    def call(self, eng, st, i, c, args):
        if c is None:
            self.forget(eng, st, args)
            return None
        if not re.match(KEEP, c):
            if c in eng.PURE or c.startswith('llvm.'):
                return None
            self.forget(eng, st, args)
            return None
        if not args:
            return None
        if c == '__bs_get_bs' and len(args) == 3:      # result by hidden pointer
            p = eng.place(args[0])
            if p is not None:
                self.drop_base(st, p[0])
                eng.kill_base(st, p[0])
                args = args[1:]
                self.addf(st, p, args[1])
            else:
                args = args[1:]
        if c in SKIPU:
            spec, cons = SKIPU[c]
            pl = self.pl(eng, args[0])
            v = self.amount(spec, args)
            if pl is not None:
                self.need(eng, st, i, pl, v, c)
                if cons == 'clip':
                    self.setf(st, pl, [(v, 0)])
                elif cons:
                    self.consume(eng, st, pl, v)
                    self.move(st, pl, v)
            return self.plain(eng, st, i)
        if c in PTRU:
            pl = self.pl(eng, args[0])
            self.ptr.add((i.id, c))
            if pl is not None:
                d = eng.fn.defs.get(i.ops[1]) if len(i.ops) > 1 and type(i.ops[1]) is int else None
                at = d is not None and d.op == 'call' and d.callee in ('memchr', 'memrchr') and '_upto' in c
                self.setf(st, pl, [(('c', 0), 1)] if at else [])
                self.kill(st, pl)
            return self.plain(eng, st, i)
        if c in LEN:
            pl = self.pl(eng, args[0])
            if pl is not None:
                for w, m in self.facts(st, pl):
                    # the length was taken before: exactly w + m
                    if w[0] == 'len':
                        st.env[i.id] = add(w[1], m)
                        return [st]
            v = eng.fresh(st, i.id)
            st.env[i.id] = v
            st.con[v] = (0, INF, frozenset())
            if pl is not None:
                for w, m in self.facts(st, pl):
                    if w[0] == 'c':
                        st.con[v] = (max(0, m), INF, frozenset())
                self.addf(st, pl, v)
                self.addf(st, pl, ('len', v))
            return [st]
        if c in HAS or c in DONE:
            pl = self.pl(eng, args[0])
            if pl is None:
                return self.plain(eng, st, i)
            s2 = st.copy()
            yes, no = st, s2
            if c in DONE:
                self.addf(yes, pl, ('c', 1))
                yes.env[i.id], no.env[i.id] = ('c', 0), ('c', 1)
                if self.has(eng, no, pl, ('c', 1)):
                    return [yes]
            else:
                v = args[1]
                if HAS[c] != 1:
                    v = self.amount(('arg*8', 1), args)
                if self.has(eng, no, pl, v):
                    yes.env[i.id] = ('c', 1)
                    return [yes]
                self.addf(yes, pl, v)
                yes.env[i.id], no.env[i.id] = ('c', 1), ('c', 0)
            return [yes, no]
        if c in CHK:
            pl = self.pl(eng, args[0])
            if pl is None:
                return self.plain(eng, st, i)
            v = self.amount(CHK[c], args)
            s2 = st.copy()
            self.consume(eng, st, pl, v)
            self.move(st, pl, v)
            r = eng.fresh(st, i.id)
            st.env[i.id] = r
            if c == 'ps_shrinkc' or c.startswith('ps_shrink'):
                pass
            st.con[r] = (0, INF, frozenset())
            self.outs(eng, st, i, c, args)
            eng.fresh(s2, i.id)
            s2.env[i.id] = ('c', -1)
            if self.has(eng, s2, pl, v) and c != 'ps_skipc' and c != 'ps_hexdigit' and c != 'ps_shrinkc':
                return [st]
            return [st, s2]
        if c in ATCHR:
            pl = self.pl(eng, args[0])
            s2 = st.copy()
            if pl is not None:
                self.setf(st, pl, [(('c', 0), ATCHR[c])])
                self.kill(st, pl)
            self.outs(eng, st, i, c, args)
            eng.fresh(st, i.id)
            st.env[i.id] = ('c', 0)
            eng.fresh(s2, i.id)
            s2.env[i.id] = ('c', -1)
            return [st, s2]
        if c in ('ps_startswithstr', 'ps_startswith', 'ps_startswithlstr'):
            n = None
            if c == 'ps_startswith' and args[2][0] == 'c':
                n = args[2][1]
            elif c == 'ps_startswithstr':
                n = self.strlen(i.ops[1])
            if c == 'ps_startswith' and args[2][0] != 'c':
                n = args[2]
            elif n:
                n = ('c', n)
            pl = self.pl(eng, args[0])
            if n and pl is not None:
                s2 = st.copy()
                self.addf(st, pl, n)
                eng.fresh(st, i.id)
                st.env[i.id] = ('c', 1)
                eng.fresh(s2, i.id)
                s2.env[i.id] = ('c', 0)
                return [st, s2]
            return self.plain(eng, st, i)
        if c in ('ps_peekc', 'ps_peekuc'):
            pl = self.by_value(st, args[0])
            if pl is not None:
                s2 = st.copy()
                self.addf(st, pl, ('c', 1))
                r = eng.fresh(st, i.id)
                st.env[i.id] = r
                st.con[r] = (0, 255, frozenset())
                eng.fresh(s2, i.id)
                s2.env[i.id] = ('c', -1)
                return [st, s2]
            return self.plain(eng, st, i)
        if READ.match(c):
            return self.plain(eng, st, i)
        self.forget(eng, st, args)
        return None

    strs = {}

    def strlen(self, op):
        if type(op) is tuple and op[0] == 'g':
            return self.strs.get(op[1])
        return None

    def by_value(self, st, v):
        for k, c in st.cells.items():
            if c[0] == v and type(k[1]) is int and c[1] == 8:
                return k
        return None

    def plain(self, eng, st, i):
        """a call that leaves memory alone"""
        if i.ty != 'void':
            st.env[i.id] = eng.fresh(st, i.id)
        return [st]

    def outs(self, eng, st, i, c, args):
        for a in args[1:]:
            p = eng.place(a)
            if p is not None and a[0] != 's':
                self.drop_base(st, p[0])
                eng.kill_base(st, p[0])
        if c == 'ps_get_ps' and len(args) > 2:
            p = eng.place(args[2])
            if p is not None:
                self.setf(st, p, [(args[1], 0)])

    def move(self, st, pl, v):
        """the cell holding the start pointer of a byte stream moved by v"""
        c = st.cells.get(pl)
        if c is not None and v[0] == 'c':
            st.cells[pl] = (add(c[0], v[1]), c[1])
        else:
            self.kill(st, pl)

    def kill(self, st, pl):
        st.cells.pop(pl, None)
        st.cells.pop((pl[0], pl[1] + 8), None)

    def drop_base(self, st, base):
        st.prop = frozenset(x for x in st.prop if x[0][0] != base)

    def forget(self, eng, st, args):
        for a in args:
            p = eng.place(a)
            if p is not None and any(x[0][0] == p[0] for x in st.prop):
                self.drop_base(st, p[0])

    def stream_of(self, st, v):
        """stream whose start pointer has value v (+ constant): (place, offset)"""
        b, n = v, 0
        while b[0] == '+':
            n += b[2]
            b = b[1]
        best = []
        for k, c in st.cells.items():
            if type(k[1]) is not int or c[1] != 8 or k not in self.streams(st):
                continue
            w, m = c[0], 0
            while w[0] == '+':
                m += w[2]
                w = w[1]
            if w == b and w[0] == 's':
                best.append((k, n - m))
        return best

    def streams(self, st):
        return self.known

    known = ()

    def load(self, eng, st, i, a):
        self.reads(eng, st, i, a, ('c', i.x['s']), 'load')

    def reads(self, eng, st, i, a, n, what):
        """n bytes read at a: if a is the position of streams, one of them has them"""
        l = [(pl, off) for pl, off in self.stream_of(st, a) if off >= 0]
        if not l:
            return
        for pl, off in l:
            if self.has(eng, st, pl, add(n, off)):
                break
        self.need(eng, st, i, pl, add(n, off), what)

    def memcpy(self, eng, st, i, d, s, n):
        self.reads(eng, st, i, s, n, 'copy')
        pd, ps = eng.place(d), eng.place(s)
        if pd is None:
            return
        if n[0] != 'c':
            self.drop_base(st, pd[0])
            return
        cp = []
        if ps is not None:
            for p, v, m in st.prop:
                if p[0] == ps[0] and ps[1] <= p[1] < ps[1] + n[1]:
                    cp.append(((pd[0], pd[1] + p[1] - ps[1]), v, m))
        st.prop = frozenset([x for x in st.prop
                             if not (x[0][0] == pd[0] and pd[1] <= x[0][1] < pd[1] + n[1])] + cp)

    def store(self, eng, st, i, addr, val):
        pl = eng.place(addr)
        if pl is None:
            return
        if i.x['s'] != 8:
            return
        if pl not in self.streams(st) and (pl[0], pl[1] - 8) not in self.streams(st):
            return
        base = pl
        if pl not in self.streams(st):
            # the end pointer
            e = (pl[0], pl[1] - 8)
            old = st.cells.get(pl)
            if old is not None and old[0] == val:
                return
            self.setf(st, e, self.from_init(eng, st, i, val, 1))
            return
        old = st.cells.get(pl)
        if old is not None:
            b1, n1 = val, 0
            while b1[0] == '+':
                n1 += b1[2]
                b1 = b1[1]
            b0, n0 = old[0], 0
            while b0[0] == '+':
                n0 += b0[2]
                b0 = b0[1]
            if b0 == b1 and b0[0] == 's':
                k = n1 - n0
                if k > 0:
                    self.need(eng, st, i, pl, ('c', k), 'advance')
                if k:
                    self.consume(eng, st, pl, ('c', k))
                return
        self.setf(st, pl, self.from_init(eng, st, i, val, 0))

    def from_init(self, eng, st, i, val, idx):
        """facts for a stream whose field is set from the result of a constructor"""
        if val[0] == 's' and val[1][0] == 'ev' and val[1][1][0] == 'v':
            d = eng.fn.defs.get(val[1][1][1])
            if d is not None and d.op == 'call':
                c = d.callee
                if c in ('ps_init', '__ps_get_ps'):
                    return [(eng.val(st, d.ops[1]), 0)]
                if c == '__bs_get_bs':
                    return [(eng.val(st, d.ops[1]), 0)]
        return []

    def branch(self, eng, st, inst, cond, taken):
        """v >= X learnt on a branch: facts about v carry over to X"""
        t = taken
        while cond[0] == 'not':
            cond, t = cond[1], not t
        if cond[0] != 'cmp':
            return True
        p = cond[1] if t else NEG.get(cond[1])
        if p is None:
            return True
        for a, b, q in ((cond[2], cond[3], p), (cond[3], cond[2], SWAP[p])):
            d = {'uge': 0, 'sge': 0, 'eq': 0, 'ugt': 1, 'sgt': 1}.get(q)
            if d is None or b[0] not in ('s', '+'):
                continue
            ab, an = a, 0
            while ab[0] == '+':
                an += ab[2]
                ab = ab[1]
            for pl, v, n in list(st.prop):
                if v == ab and v[0] == 's':
                    # avail >= v + n, v + an >= b + d
                    self.addf(st, pl, b, d - an + n)
            # pointers: end of the stream against its start
            for k in self.known:
                e = st.cells.get((k[0], k[1] + 8))
                s = st.cells.get(k)
                if e is None or s is None or e[0] != ab:
                    continue
                bb, bn = b, 0
                while bb[0] == '+':
                    bn += bb[2]
                    bb = bb[1]
                sb, sn = s[0], 0
                while sb[0] == '+':
                    sn += sb[2]
                    sb = sb[1]
                if sb == bb:
                    self.addf(st, k, ('c', 0), bn - sn + d - an)
        if p == 'ne':
            for k in self.known:
                e = st.cells.get((k[0], k[1] + 8))
                s = st.cells.get(k)
                if e and s and {e[0], s[0]} == {cond[2], cond[3]}:
                    self.addf(st, k, ('c', 1))
        return True
