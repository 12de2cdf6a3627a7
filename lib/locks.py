"""Lock typestate: which locks are held at each point; net effect of functions."""
from esp import Engine, Prop, Limit, syms_of, subst, INF, TOP

LOCK = {'pthread_mutex_lock': 0, 'pthread_rwlock_wrlock': 0, 'pthread_rwlock_rdlock': 0,
        'pthread_spin_lock': 0}
TRY = {'pthread_mutex_trylock': 0, 'pthread_rwlock_trywrlock': 0, 'pthread_rwlock_tryrdlock': 0,
       'pthread_spin_trylock': 0}
UNLOCK = {'pthread_mutex_unlock': 0, 'pthread_rwlock_unlock': 0, 'pthread_spin_unlock': 0}
WAIT = {'pthread_cond_wait': 1, 'pthread_cond_timedwait': 1}


def is_unlock(i):
    """spin_unlock(): release store of the i32 constant 0."""
    return i.op == 'store' and i.x.get('ord') == 'release' and i.ops[0] == ('i', 0, 32)


def is_spin(i):
    return i.op == 'atomicrmw' and i.x['rop'] == 'xchg' and i.ops[1] == ('i', 1, 32)


def is_lock_op(i):
    return is_spin(i) or is_unlock(i) or (i.op == 'call' and (
        i.callee in LOCK or i.callee in UNLOCK or i.callee in TRY or i.callee in WAIT))


def lock_class(fn, inst):
    """Identity of the lock an acquisition names, independent of the object."""
    o = inst.ops[0] if inst.op != 'store' else inst.ops[1]
    off = 0
    typ = None
    while True:
        if type(o) is int and o in fn.defs and fn.defs[o].op == 'getelementptr':
            g = fn.defs[o]
            if g.x.get('o') is None:
                return None
            if g.x['t'] != 'i8' and typ is None:
                typ = g.x['t']
                return ('T', typ, g.x['o'] + off)
            off += g.x['o']
            o = g.ops[0]
            continue
        if type(o) is tuple and o[0] == 'gep':
            off += o[2] if type(o[2]) is int else 0
            o = o[1]
            continue
        if type(o) is tuple and o[0] == 'g':
            return ('G', o[1], off)
        return None


class Locks(Prop):
    """prop: (frozenset held, frozenset released-but-not-acquired here)"""

    def __init__(self, deltas, names, entry_held=()):
        self.deltas = deltas          # callee -> {'acq': [places], 'rel': [...]}
        self.names = names
        self.reports = {}
        self.exits = set()            # (held, released, retclass)
        self.acc = []                 # (inst, place, 'r'|'w', held)
        self.ops = 0
        self.blocking = []
        self.calls = []
        self.entry_held = frozenset(entry_held)

    def init(self, eng, st):
        st.prop = (self.entry_held, frozenset())

    def rename(self, eng, st, old, new):
        def f(pl):
            b, o = pl
            if b[0] == 'p' and b[1] == old:
                return (('p', new), o)
            return pl
        st.prop = (frozenset(f(x) for x in st.prop[0]), frozenset(f(x) for x in st.prop[1]))

    def prop_syms(self, st):
        return {pl[0][1] for s in st.prop for pl in s if pl[0][0] == 'p'}

    def rep(self, eng, st, inst, what, pl):
        self.reports.setdefault((what, self.names(eng.fn, pl), inst.id), (inst, eng.path(st)))

    def acquire(self, eng, st, inst, pl):
        self.ops += 1
        if pl in st.prop[0]:
            self.rep(eng, st, inst, 'lock taken twice', pl)
            return False
        if pl in st.prop[1]:
            st.prop = (st.prop[0], st.prop[1] - {pl})
        else:
            st.prop = (st.prop[0] | {pl}, st.prop[1])
        return True

    def release(self, eng, st, inst, pl):
        self.ops += 1
        if pl in st.prop[0]:
            st.prop = (st.prop[0] - {pl}, st.prop[1])
        elif pl in st.prop[1]:
            self.rep(eng, st, inst, 'lock released twice', pl)
        else:
            st.prop = (st.prop[0], st.prop[1] | {pl})

    def atomic(self, eng, st, inst, a):
        if inst.op == 'atomicrmw' and inst.x['rop'] == 'xchg':
            v = eng.val(st, inst.ops[1])
            pl = eng.place(a)
            if v == ('c', 1) and pl is not None and self.is_lock(eng, inst, pl):
                s2 = st.copy()
                self.lockacq(eng, st, inst, pl)
                ok = self.acquire(eng, st, inst, pl)
                st.env[inst.id] = ('c', 0)
                s2.env[inst.id] = ('c', 1)
                return [st, s2] if ok else [s2]
        return None

    def is_lock(self, eng, inst, pl):
        return True

    def lockacq(self, eng, st, inst, pl):
        pass

    def store(self, eng, st, inst, addr, val):
        pl = eng.place(addr)
        if pl is None:
            return
        if is_unlock(inst):
            self.release(eng, st, inst, pl)
            return
        self.acc.append((inst, pl, 'w', st.prop[0]))

    def load(self, eng, st, inst, addr):
        pl = eng.place(addr)
        if pl is not None:
            self.acc.append((inst, pl, 'r', st.prop[0]))

    def call(self, eng, st, inst, c, args):
        if c in LOCK:
            pl = eng.place(args[LOCK[c]])
            if pl:
                self.lockacq(eng, st, inst, pl)
                if not self.acquire(eng, st, inst, pl):
                    return []
                st.env[inst.id] = ('c', 0)
                return [st]
        elif c in TRY:
            pl = eng.place(args[TRY[c]])
            if pl:
                s2 = st.copy()
                st.env[inst.id] = ('c', 0)
                ok = self.acquire(eng, st, inst, pl)
                v = eng.fresh(s2, inst.id)
                s2.env[inst.id] = v
                s2.con[v] = (1, INF, frozenset())
                return [st, s2] if ok else [s2]
        elif c in UNLOCK:
            pl = eng.place(args[UNLOCK[c]])
            if pl:
                self.release(eng, st, inst, pl)
                st.env[inst.id] = ('c', 0)
                return [st]
        elif c in WAIT:
            pass
        d = self.deltas.get(c) or self.deltas.get((eng.fn.tu, c))
        if d:
            for pl in d['rel']:
                self.release(eng, st, inst, self.inst_place(eng, st, pl, args))
            for pl in d['acq']:
                p2 = self.inst_place(eng, st, pl, args)
                self.lockacq(eng, st, inst, p2)
                if not self.acquire(eng, st, inst, p2):
                    return []
        self.calls.append((inst, c, st.prop[0]))
        return None

    def inst_place(self, eng, st, pl, args):
        b, o = pl
        if b[0] == 'p' and b[1][1][0] == 'v' and b[1][1][1] < len(args):
            q = eng.place(args[b[1][1][1]])
            if q:
                return (q[0], q[1] + o)
        return pl

    def clobber_ok(self):
        return True

    def ret(self, eng, st, inst, val):
        cls = None
        if val is not None:
            lo, hi, ne = eng.rng(st, val)
            cls = 'neg' if hi < 0 else 'zero' if lo == hi == 0 else 'null0' if False else 'other'
        self.exits.add((st.prop, cls, inst.id))
        if st.prop[0] or st.prop[1]:
            self.reports.setdefault(('exit', st.prop, cls), (inst, eng.path(st)))
