"""Escape analysis for the scratch (t_) stack: which values point to memory of
which t_scope frame, and where such a value outlives its frame."""
import re
OUTTY = re.compile(r'^(ptr|%struct\.lstr_t|%(struct|union)\.(qv|qm|qh)_.*|%(struct|union)\..*__t)(\.\d+)?$')

PUSH = ('mem_stack_pool_push', 'mem_stack_push')
POP = ('mem_stack_pool_pop', 'mem_stack_pop', 't_scope_cleanup')
KEEP = r'^(lstr_persists|mp_lstr_persists|t_.*|mem_stack_.*|mp_.*|mpa_.*)$'
CALLER = ('c',)
# f: points to the scratch frame; d: loaded from it; a: parameter; e: loaded from a parameter
DEEP = {'f': 'd', 'd': 'd', 'a': 'e', 'e': 'e'}
NOPTR = frozenset()
CAST = ('bitcast', 'freeze', 'ptrtoint', 'inttoptr', 'addrspacecast')
DESTROY = re.compile(r'wipe|clear|reset|delete|release|destroy|free|close|cancel|unregister|remove')
# calls that look at their pointer arguments only during the call and return
# something that is not derived from the scratch pool
PLAIN = re.compile(r'^llvm\.|^(t_pool|t_scope_cleanup|mem_stack_.*|t_yaml_pack_sb|t_yaml_pack_file)$')

PERSIST = re.compile(r'^(mp_)?lstr_persists|^lstr_copy|^lstr_wipe')

NEW = re.compile(r'^(?!t_|mp_|mpa_|r_).*_new$')


class Summ:
    """name -> (returns scratch, passthrough params, retained {(k, target)})"""
    def __init__(self):
        self.ret0 = set()
        self.passes = {}
        self.keeps = {}
        self.argt = {}


class An:
    def __init__(self, fn, S, summarise=False, exempt={}):
        self.exempt = exempt
        self.fn = fn
        self.S = S
        self.summ = summarise
        self.tv = {}           # SSA id -> frozenset of taints
        self.pool = set()
        self.viol = {}
        self.scopes = 0
        self.allocs = 0
        self.uses = 0
        self.ret_taint = set()
        self.keeps = set()
        self.used_ex = set()

    # -- values
    def taint(self, v):
        if type(v) is int:
            if self.fn.is_arg(v):
                return frozenset([('a', v)]) if self.summ else NOPTR
            return self.tv.get(v, NOPTR)
        if type(v) is tuple and v and v[0] == 'gep':
            return self.taint(v[1])
        return NOPTR

    def base(self, v, off=0, depth=0):
        """('al', id, off) | ('v', root, off) | ('g', name, off)"""
        if type(v) is int:
            d = self.fn.defs.get(v)
            if d is None or depth > 40:
                return ('v', v, off)
            if d.op == 'alloca':
                return ('al', v, off)
            if d.op == 'getelementptr':
                o = d.x.get('o')
                if o is None or d.x.get('v') or off is None:
                    return self.base(d.ops[0], None, depth + 1)
                return self.base(d.ops[0], off + o, depth + 1)
            if d.op in CAST:
                return self.base(d.ops[0], off, depth + 1)
            return ('v', v, off)
        if v[0] == 'gep':
            return self.base(v[1], None if v[2] is None or off is None else off + v[2], depth + 1)
        if v[0] == 'g':
            return ('g', v[1], off)
        return ('k', v[0], off)

    def origin(self, b, depth=0):
        """name of the global (or 'heap') that b's object belongs to"""
        if b[0] == 'g':
            return b[1]
        if b[0] != 'v' or type(b[1]) is not int or depth > 20:
            return None
        d = self.fn.defs.get(b[1])
        if d is None:
            return None
        if d.op in ('call', 'invoke'):
            if d.callee and d.callee.startswith('llvm.threadlocal'):
                return self.origin(self.base(d.ops[0]), depth + 1)
            if d.callee and (d.callee in ('malloc', 'calloc', '__imalloc', '__irealloc') or NEW.match(d.callee)):
                return d.callee
        if d.op == 'load':
            return self.origin(self.base(d.ops[0]), depth + 1)
        return None

    def is_exempt(self, b):
        o = self.origin(b)
        if o in self.exempt:
            self.used_ex.add(o)
            return True
        return False

    def lasting(self, b):
        return self.origin(b) is not None and not self.is_exempt(b)

    def root_taint(self, b):
        return self.taint(b[1]) if b[0] == 'v' else NOPTR

    def rep(self, what, i, extra=''):
        fr = i.frames()
        inner = fr[0][1] if fr else self.fn.src
        key = (what, inner, extra)
        if key not in self.viol:
            self.viol[key] = (i, what, extra)

    # -- driver
    def run(self):
        fn = self.fn
        n = len(fn.bbs)
        order = fn.rpo()
        inn = {0: ((), {}, {})}
        work = True
        rounds = 0
        for _ in range(12):
            rounds += 1
            self.changed = False
            for b in order:
                if b not in inn:
                    continue
                stk, cells, pend = inn[b]
                st = [stk, dict(cells), dict(pend)]
                for i in fn.bbs[b]:
                    self.step(st, i)
                if fn.bbs[b][-1].op in ('unreachable',):
                    continue
                for s in dict.fromkeys(fn.succs[b]):
                    if s not in inn:
                        inn[s] = (st[0], dict(st[1]), dict(st[2]))
                        self.changed = True
                    else:
                        k, c, p = inn[s]
                        for x, t in st[1].items():
                            if not t <= c.get(x, NOPTR):
                                c[x] = c.get(x, NOPTR) | t
                                self.changed = True
                        for x, t in st[2].items():
                            if x not in p:
                                p[x] = t
                                self.changed = True
            if not self.changed:
                break
        return self

    def set(self, i, t):
        if t and not t <= self.tv.get(i.id, NOPTR):
            self.tv[i.id] = self.tv.get(i.id, NOPTR) | t
            self.changed = True

    def live(self, st, t):
        """frames of t that are closed at this point"""
        return [x for x in t if x[0] == 'f' and x[1] not in st[0]]

    def use(self, st, i, v):
        t = self.taint(v)
        if t:
            self.uses += 1
            d = self.live(st, t)
            if d:
                self.rep('use of scratch memory after its scope is closed', i, self.fn.name_of(v) or '')

    def do_store(self, st, i, b, t):
        """value with taint t stored at base b"""
        if b[0] == 'al':
            k = (b[1], b[2])
            if b[2] is None:
                if t:
                    st[1][k] = st[1].get(k, NOPTR) | t
            else:
                if t:
                    st[1][k] = t
                else:
                    st[1].pop(k, None)
            return
        key = (b[0], b[1], b[2])
        if not t:
            if b[2] is not None:
                st[2].pop(key, None)
            return
        rt = self.root_taint(b)
        for x in t:
            if x[0] == 'f' and x[1] in st[0]:
                # containers in the same frame or an inner one die no later
                pos = st[0].index(x[1])
                if any(r[0] in 'fd' and r[1] in st[0] and st[0].index(r[1]) >= pos for r in rt):
                    continue
                if not self.is_exempt(b):
                    st[2][key] = (x[1], i)
            elif x == CALLER and not self.summ and self.lasting(b):
                self.rep('caller\'s scratch memory is stored in memory that outlives every scope', i, self.origin(b))
            elif x[0] == 'a' and self.summ:
                if b[0] == 'g':
                    self.keeps.add((x[1], 'g'))
                for r in rt:
                    if r[0] in 'ae' and r[1] != x[1]:
                        self.keeps.add((x[1], r[1]))

    def step(self, st, i):
        op = i.op
        fn = self.fn
        if op in ('call', 'invoke'):
            return self.call(st, i)
        if op == 'load':
            self.use(st, i, i.ops[0])
            if 'ptr' not in i.ty and not i.ty.startswith(('{', '%')):
                return
            b = self.base(i.ops[0])
            if b[0] == 'al':
                t = st[1].get((b[1], b[2]), NOPTR) | st[1].get((b[1], None), NOPTR)
                if b[2] is None:
                    for (a, o), x in st[1].items():
                        if a == b[1]:
                            t |= x
                self.set(i, t)
            elif b[0] == 'v':
                # what a scratch object points to may well be persistent; only
                # summaries follow parameters (a container passed by the caller)
                self.set(i, frozenset((DEEP[x[0]],) + x[1:] for x in self.root_taint(b) if x[0] in DEEP))
            return
        if op == 'store':
            self.use(st, i, i.ops[1])
            b = self.base(i.ops[1])
            v = i.ops[0]
            t = self.taint(v)
            self.do_store(st, i, b, t)
            return
        if op == 'phi':
            t = NOPTR
            for v in i.ops:
                t |= self.taint(v)
            self.set(i, t)
            return
        if op == 'select':
            self.set(i, self.taint(i.ops[1]) | self.taint(i.ops[2]))
            return
        if op == 'getelementptr' or op in CAST:
            v = i.ops[0]
            if type(v) is int and v in self.pool:
                self.pool.add(i.id)
            if op == 'ptrtoint':
                return
            self.set(i, self.taint(v))
            return
        if op in ('insertvalue',):
            self.set(i, self.taint(i.ops[0]) | self.taint(i.ops[1]))
            return
        if op == 'extractvalue':
            if 'ptr' in i.ty:
                self.set(i, self.taint(i.ops[0]))
            return
        if op == 'ret':
            if i.ops:
                t = self.taint(i.ops[0])
                for x in t:
                    if x[0] == 'f':
                        self.rep('scratch memory of the function\'s own scope is returned', i)
                    else:
                        self.ret_taint.add(x)

    def call(self, st, i):
        fn = self.fn
        c = i.callee
        args = i.ops
        if c and c.startswith('llvm.'):
            if c.startswith('llvm.threadlocal') and args and args[0] == ('g', 't_pool_g'):
                self.pool.add(i.id)
            elif c.startswith(('llvm.memcpy', 'llvm.memmove')):
                self.memcpy(st, i)
            elif c.startswith('llvm.memset'):
                b = self.base(args[0])
                if b[0] == 'al' and b[2] is not None:
                    n = args[2][1] if type(args[2]) is tuple and args[2][0] == 'i' else 0
                    for k in [k for k in st[1] if k[0] == b[1] and (k[1] is None or b[2] <= k[1] < b[2] + n)]:
                        del st[1][k]
                else:
                    for k in [k for k in st[2] if k[:2] == b[:2]]:
                        del st[2][k]
            return
        if c == 't_pool':
            self.pool.add(i.id)
            return
        if c in PUSH:
            if args and type(args[0]) is int and args[0] in self.pool:
                st[0] = st[0] + (i.id,)
                self.scopes += 1
            return
        if c in POP:
            if c == 't_scope_cleanup' or (args and type(args[0]) is int and args[0] in self.pool):
                if st[0]:
                    p = st[0][-1]
                    st[0] = st[0][:-1]
                    for k, (fr, si) in list(st[2].items()):
                        if fr == p:
                            self.rep('scratch memory is still referenced from longer-lived memory when its scope '
                                     'closes', si)
                            del st[2][k]
            return
        if c == 't_pool_destroy':
            return
        haspool = any(type(a) is int and a in self.pool for a in args)
        for a in args:
            if type(a) is int:
                self.use(st, i, a)
        top = ('f', st[0][-1]) if st[0] else CALLER
        res = NOPTR
        scr = haspool or (c and (c in self.S.ret0 or c.startswith('t_')))
        if scr and ('ptr' in i.ty) and c != 'iop_env_new' and i.ty != 'void':
            res |= frozenset([top])
            self.allocs += 1
        if c:
            for k in self.S.passes.get(c, ()):
                if k < len(args):
                    res |= self.taint(args[k])
            for k, tgt in self.S.keeps.get(c, ()):
                if k < len(args):
                    t = self.taint(args[k])
                    if t:
                        if tgt == 'g':
                            self.do_store(st, i, ('g', c, 0), t)
                        elif tgt < len(args):
                            b = self.base(args[tgt])
                            self.do_store(st, i, (b[0], b[1], None), t)
            if PERSIST.search(c):
                for a in args:
                    b = self.base(a)
                    if b[0] == 'al':
                        for k in [k for k in st[1] if k[0] == b[1]]:
                            del st[1][k]
            if DESTROY.search(c):
                for a in args:
                    if type(a) is int or type(a) is tuple:
                        b = self.base(a)
                        for k in [k for k in st[2] if k[:2] == b[:2]]:
                            del st[2][k]
        if scr:
            at = self.S.argt.get(c)
            for k, a in enumerate(args):
                if type(a) is int and a not in self.pool:
                    b = self.base(a)
                    if b[0] == 'al':
                        if at is not None and k + 1 < len(at) and re.match(r'^(<[^>]*>)*\*c', at[k + 1]):
                            continue
                        kk = (b[1], b[2] if b[2] else None)
                        strong = top if OUTTY.match(fn.defs[b[1]].ty) or top[0] != 'f' else ('d',) + top[1:]
                        st[1][kk] = st[1].get(kk, NOPTR) | frozenset([strong])
        self.set(i, res)

    def memcpy(self, st, i):
        d, s = self.base(i.ops[0]), self.base(i.ops[1])
        n = i.ops[2][1] if type(i.ops[2]) is tuple and i.ops[2][0] == 'i' else None
        self.use(st, i, i.ops[0])
        self.use(st, i, i.ops[1])
        got = {}
        if s[0] == 'al':
            for (a, o), t in st[1].items():
                if a != s[1]:
                    continue
                if o is None or s[2] is None or n is None:
                    got[None] = got.get(None, NOPTR) | t
                elif s[2] <= o < s[2] + n:
                    got[o - s[2]] = t
        elif s[0] == 'v' and n is not None and n >= 16:
            t = frozenset(x for x in self.root_taint(s) if x[0] == 'f')
            if t and d[0] == 'al':
                got[None] = frozenset(('d',) + x[1:] for x in t)
        if d[0] == 'al' and d[2] is not None and n:
            for k in [k for k in st[1] if k[0] == d[1] and k[1] is not None and d[2] <= k[1] < d[2] + n]:
                del st[1][k]
        elif d[0] != 'al' and d[2] is not None and n:
            for k in [k for k in st[2] if k[:2] == d[:2] and k[2] is not None and d[2] <= k[2] < d[2] + n]:
                del st[2][k]
        for o, t in got.items():
            self.do_store(st, i, (d[0], d[1], None if o is None or d[2] is None else d[2] + o), t)
