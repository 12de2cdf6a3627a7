"""C03: locks are balanced on every path, never taken twice, ordered, and the data
they protect is only touched while they are held."""
import re
import ir, locks, esp, scope
from par import pmap

LEVEL = 'other'

# Functions whose documented contract is to return with a lock still held (or to
# release one taken by another function).  Confirmed one by one.
DELTA = {
    'el_bl_lock': ('acq', 'big lock API: pair of el_bl_unlock()'),
    'el_bl_unlock': ('rel', 'big lock API'),
    'log_spin_lock': ('acq', 'logger lock API'),
    'log_spin_unlock': ('rel', 'logger lock API'),
    'ic_el_atfork_prepare': ('acq', 'pthread_atfork(): released by parent/child handlers'),
    'ic_el_atfork_parent': ('rel', 'pthread_atfork()'),
    'ic_el_atfork_child': ('rel', 'pthread_atfork()'),
}
# exits with the lock held because the object that embeds it has just been freed
FREED_WITH_OBJECT = {('mem_ring_delete', 'p')}

# callee effects that stay calls in the IR
EFFECTS = {
    'log_spin_lock': {'acq': [(('g', 'log_g'), 'update_lock')], 'rel': []},
    'log_spin_unlock': {'acq': [], 'rel': [(('g', 'log_g'), 'update_lock')]},
}

# data -> lock.  sel: ('G', global, first field index of anonymous struct .. by element)
#   G: (global, element indexes of the IR struct), lock element index
#   T: (struct, field names), lock either ('self', field) or ('G', global, element)
# mode: 'rw' or 'w'; exempt: functions that run while no other thread can reach the data.
GUARD = [
    ('src/core/mem-fifo.c', 'G', 'core_mem_fifo_g', ['all_pools'], 'rw', ('G', 'core_mem_fifo_g', 'all_pools_lock'), ()),
    ('src/core/mem-fifo.c', 'T', 'mem_fifo_pool_t', ['pool_link'], 'rw', ('G', 'core_mem_fifo_g', 'all_pools_lock'), ()),
    ('src/core/mem-ring.c', 'G', 'core_mem_ring_g', ['all_pools'], 'rw', ('G', 'core_mem_ring_g', 'all_pools_lock'), ()),
    ('src/core/mem-ring.c', 'T', 'ring_pool_t', ['pool_link'], 'rw', ('G', 'core_mem_ring_g', 'all_pools_lock'), ()),
    ('src/core/mem-ring.c', 'T', 'ring_pool_t', ['frames_cnt', 'nb_frames_release', 'alive'], 'rw',
     ('self', 'lock'), ('mem_ring_new',)),
    ('src/core/mem-stack.c', 'G', 'core_mem_stack_g', ['all_pools'], 'rw', ('G', 'core_mem_stack_g', 'all_pools_lock'),
     ('mem_stack_fix_all_pools_at_fork',)),
    ('src/core/mem-stack.c', 'T', 'mem_stack_pool_t', ['pool_link'], 'rw', ('G', 'core_mem_stack_g', 'all_pools_lock'),
     ('mem_stack_fix_all_pools_at_fork',)),
    ('src/core/qpage.c', 'T', 'page_desc_t', ['free_next', 'free_prev_next'], 'rw', ('G', 'qpages_g', 'lock'), ()),
    ('src/core/qps.blk', 'G', 'qps_store_g', ['qps_head'], 'rw', ('G', 'qps_store_g', 'lock'), ()),
    ('src/core/qps.blk', 'T', 'qps_t', ['smaps', 'qps_link'], 'rw', ('G', 'qps_store_g', 'lock'), ()),
    ('src/core/log.c', 'G', 'log_conf_gen_g', None, 'w', ('G', 'log_g', 'update_lock'), ('log_initialize',)),
    # the values of a metric; parents with labels are only reached through their own lock
    ('src/prometheus-client/metrics.c', 'T', 'prom_simple_value_metric_t', ['value'], 'rw', ('self', 'lock'), ()),
    ('src/prometheus-client/metrics.c', 'T', 'prom_gauge_t', ['value'], 'rw', ('self', 'lock'), ()),
    ('src/prometheus-client/metrics.c', 'T', 'prom_counter_t', ['value'], 'rw', ('self', 'lock'), ()),
    ('src/prometheus-client/metrics.c', 'T', 'prom_histogram_t', ['count', 'sum'], 'w', ('self', 'lock'), ()),
    # event-loop client/server tables of the blocking RPC bindings: API functions run in
    # foreign threads; callbacks run in the loop thread which holds the mutex
    ('src/iop/rpc-el.c', 'G', 'ic_el_g', ['servers', 'clients', 'disconnecting_clients', 'destroyed_clients'], 'rw',
     ('G', 'ic_el_g', 'el_mutex'), ('ic_el_initialize', 'ic_el_shutdown', 'ic_el_atfork_child', '*callback')),
]


def run(ctx):
    ctx.rule = (
        'ESP typestate over the SSA form of every product function that performs a lock '
        'operation (spinlocks recognised as xchg/release-store pairs, pthread mutexes): on '
        'every feasible path each lock taken is released before return, no lock is taken '
        'twice or released twice, except for a frozen table of lock/unlock API functions; '
        'the lock-order graph over lock classes (closed over direct calls) is acyclic; every '
        'access to a field of the guarded-by table happens with its lock held.')
    ctx.assumptions = [
        'a static function analysed on its own that touches guarded data is accepted when '
        'every direct call site holds the lock',
        'lock identity across objects is per (type, field) for ordering only']
    dumps = ir.build(ctx.scratch)
    mods = ir.load_all(dumps)
    roots = scope.roots(mods)
    at = scope.addr_taken(mods)
    gtus = {}
    for row in GUARD:
        if row[0] not in mods:
            ir.broken('guard table names %s which is not built' % row[0])
        gtus.setdefault(row[0], []).append(resolve(mods[row[0]], row))
    logoff = field_off_ist(mods['src/core/log.c'], 'log_g', 'update_lock')
    eff = {k: {s: [(b, logoff) for b, _ in v[s]] for s in v} for k, v in EFFECTS.items()}

    todo = [f for f in roots if any(locks.is_lock_op(i) for i in f.insts())
            or any(i.callee in eff for i in f.calls())
            or (f.tu in gtus and touches(f, gtus[f.tu]))
            or any(i.op == 'store' and is_class_ptr(f, i) for i in f.insts())]

    def one(f):
        p = locks.Locks({} if f.src in DELTA else eff, nm)
        e = esp.Engine(f, p)
        try:
            e.run()
        except esp.Limit:
            return None
        reps = []
        for k, (inst, path) in p.reports.items():
            if k[0] == 'exit':
                h, r = k[1]
                reps.append(('exit', [nm(f, x) for x in h], [nm(f, x) for x in r],
                             {x[0][0] for x in h}, inst.where(), path))
            else:
                reps.append((k[0], k[1], inst.where(), path))
        acc = []
        for inst, pl, rw, held in p.acc:
            for gi, g in enumerate(gtus.get(f.tu, ())):
                o = match(f, inst, pl, g)
                if o is None or (rw == 'r' and g['mode'] == 'w'):
                    continue
                lk = (('g', g['lock'][1]), g['lock'][2]) if g['lock'][0] == 'G' else \
                    (pl[0], pl[1] - o + g['lock'][1])
                fr = [x[1] for x in inst.frames()] + [f.src]
                acc.append((gi, rw, lk in held, inst.where(), fr))
            c = class_ptr(pl)
            if c and rw == 'w':
                fr = [x[1] for x in inst.frames()] + [f.src]
                acc.append((c, rw, (('g', c[:-4] + '.lock'), 0) in held, inst.where(), fr))
        calls = [(c, [(h[0], h[1]) for h in held]) for inst, c, held in p.calls]
        return reps, acc, p.ops, calls

    out = pmap(one, todo)
    lim = [f.src for f, r in zip(todo, out) if r is None]
    nops = nacc = 0
    heldat = {}
    for f, r in zip(todo, out):
        if r is None:
            continue
        for c, held in r[3]:
            heldat.setdefault((f.tu, c), []).append(set(h for h in held if h[0][0] == 'g'))
    seen = set()

    def viol(key, text):
        if key not in seen:
            seen.add(key)
            ctx.violation(key, text)
    perg = {}
    for f, r in zip(todo, out):
        if r is None:
            continue
        nops += r[2]
        for rep in r[0]:
            if rep[0] == 'exit':
                _, h, rl, kinds, w, path = rep
                if f.src in DELTA:
                    if (DELTA[f.src][0] == 'acq' and not rl) or (DELTA[f.src][0] == 'rel' and not h):
                        continue
                if not rl and all((f.src, k) in FREED_WITH_OBJECT for k in kinds):
                    continue
                if h:
                    viol('%s:held:%s' % (f.src, ','.join(sorted(h))),
                         '%s() returns at %s with %s still held [lines %s]' % (f.src, w, ', '.join(h), path))
                if rl:
                    viol('%s:rel:%s' % (f.src, ','.join(sorted(rl))),
                         '%s() releases %s which it has not taken (return at %s) [lines %s]'
                         % (f.src, ', '.join(rl), w, path))
            else:
                viol('%s:%s:%s' % (f.src, rep[0].replace(' ', '-'), rep[1]),
                     '%s: %s at %s in %s() [lines %s]' % (rep[0], rep[1], rep[2], f.src, rep[3]))
        for gi, rw, ok, w, fr in r[1]:
            nacc += 1
            perg[gi] = perg.get(gi, 0) + 1
            if ok:
                continue
            if isinstance(gi, str):
                viol('%s:%s' % (f.src, gi), 'class pointer %s published without its lock at %s' % (gi, w))
                continue
            g = gtus[f.tu][gi]
            if any(x in g['exempt'] for x in fr) or ('*callback' in g['exempt'] and f.name in at):
                continue
            if f.link == 'int' and f.name not in at:
                sites = heldat.get((f.tu, f.name))
                if sites and g['lock'][0] == 'G' and all((('g', g['lock'][1]), g['lock'][2]) in s for s in sites):
                    continue
                if sites and g['lock'][0] != 'G':
                    continue
            viol('%s:unguarded:%s' % (f.src, g['text']),
                 '%s of %s at %s in %s() without %s held'
                 % ('read' if rw == 'r' else 'write', g['text'], w, f.src, g['ltext']))
    for f in FREED_WITH_OBJECT:
        pass
    # ---- lock order
    edges = order(mods, todo, out, ctx)
    cyc = cycle(edges)
    if cyc:
        viol('order:' + '>'.join(map(str, cyc)), 'lock order cycle: ' + ' -> '.join(
            '%s (%s)' % (cyc[i], edges.get((cyc[i], cyc[(i + 1) % len(cyc)]), '')) for i in range(len(cyc))))
    ctx.floor('translation_units', len(mods), 100)
    ctx.floor('functions_analysed', len(todo) - len(lim), 60)
    ctx.floor('lock_operations', nops, 120)
    ctx.floor('guarded_accesses', nacc, 80)
    for tu in gtus:
        for gi, g in enumerate(gtus[tu]):
            if not any(f.tu == tu and r and any(a[0] == gi for a in r[1]) for f, r in zip(todo, out)):
                ir.broken('guarded data %s is never accessed any more' % g['text'])
    ctx.counts['lock_order_edges'] = len(edges)
    ctx.counts['not_analysed_state_limit'] = lim
    ctx.samples = sorted('%s -> %s at %s' % (a, b, w) for (a, b), w in edges.items())


def nm(fn, pl, lock=False):
    b, o = pl
    if b[0] == 'g':
        return '%s+%d' % (b[1], o)
    if b[0] == 'p' and b[1][0] == 's' and b[1][1][0] == 'v':
        return 'object+%d' % o
    return '%s+%s' % (b, o)


def class_ptr(pl):
    if pl[0][0] == 'g' and pl[1] == 0 and re.match(r'^\w+_class\.ptr$', pl[0][1]):
        return pl[0][1]


def is_class_ptr(f, i):
    o = i.ops[1]
    return type(o) is tuple and o[0] == 'g' and o[1].endswith('_class.ptr')


def field_off_ist(m, g, which):
    gl = m.globals.get(g)
    mem = {x[0]: x for x in flat((gl or {}).get('m') or ())}
    if which not in mem:
        ir.broken('%s.%s vanished' % (g, which))
    return mem[which][1]


def resolve(m, row):
    tu, kind, name, fields, mode, lock, exempt = row
    g = {'kind': kind, 'name': name, 'mode': mode, 'exempt': exempt}
    if kind == 'G':
        gl = m.globals.get(name)
        if not gl:
            ir.broken('guarded global %s vanished' % name)
        if fields is None:
            g['rng'] = [(0, 1 << 30)]
        else:
            mem = {x[0]: x for x in flat(gl.get('m') or ())}
            for i in fields:
                if i not in mem:
                    ir.broken('guarded field %s.%s vanished' % (name, i))
            g['rng'] = [(mem[i][1], mem[i][1] + max(1, mem[i][2] // 8)) for i in fields]
        g['text'] = '%s%s' % (name, '' if fields is None else fields)
    else:
        st = m.structs.get(name)
        if not st:
            ir.broken('guarded type %s vanished' % name)
        mem = {x[0]: x for x in flat(st['m'])}
        g['offs'] = {}
        for fl in fields:
            if fl not in mem:
                ir.broken('guarded field %s.%s vanished' % (name, fl))
            g['offs'][fl] = (mem[fl][1], mem[fl][1] + max(1, mem[fl][2] // 8))
        g['text'] = '%s.{%s}' % (name, ','.join(fields))
    if lock[0] == 'G':
        g['lock'] = ('G', lock[1], field_off_ist(m, lock[1], lock[2]))
        g['ltext'] = 'the lock of %s' % lock[1]
    else:
        mem = {x[0]: x for x in flat(m.structs[name]['m'])}
        g['lock'] = ('self', mem[lock[1]][1])
        g['ltext'] = 'its %s' % lock[1]
    return g


def flat(ms):
    for x in ms:
        if x[0]:
            yield x
        elif len(x) > 4:
            for y in flat(x[4]):
                yield [y[0], x[1] + y[1]] + y[2:]


def match(f, inst, pl, g):
    """Offset inside the guarded struct, or None."""
    if g['kind'] == 'G':
        if pl[0] == ('g', g['name']) and any(a <= pl[1] < b for a, b in g['rng']):
            return pl[1]
        return None
    o = inst.ops[0] if inst.op == 'load' else inst.ops[1] if inst.op == 'store' else None
    off = 0
    for _ in range(6):
        if type(o) is int and o in f.defs and f.defs[o].op == 'getelementptr':
            gep = f.defs[o]
            if gep.x.get('o') is None:
                return None
            off += gep.x['o']
            if gep.x['t'] == '%struct.' + g['name']:
                if any(a <= off < b for a, b in g['offs'].values()):
                    return off
                return None
            o = gep.ops[0]
        else:
            return None


def touches(f, gs):
    for i in f.insts():
        if i.op == 'getelementptr' and any(g['kind'] == 'T' and i.x['t'] == '%struct.' + g['name'] for g in gs):
            return True
        for o in i.ops:
            while type(o) is tuple and o[0] == 'gep':
                o = o[1]
            if type(o) is tuple and o[0] == 'g' and any(g['kind'] == 'G' and g['name'] == o[1] for g in gs):
                return True
    return False


def order(mods, todo, out, ctx):
    """Edges lock class -> lock class, with where."""
    # transitive acquisitions per function
    ext = {}
    direct, calls = {}, {}
    for m in mods.values():
        for n, f in m.fns.items():
            if scope.is_test(f):
                continue
            k = (f.tu, n) if f.link == 'int' else n
            ext[k] = f
            direct[k] = {c for i in f.insts() if locks.is_spin(i) or (i.op == 'call' and i.callee in locks.LOCK)
                         for c in [locks.lock_class(f, i)] if c}
            calls[k] = {(f.tu, i.callee) if (i.callee in m.fns and m.fns[i.callee].link == 'int') else i.callee
                        for i in f.calls() if i.callee}
    trans = {k: set(v) for k, v in direct.items()}
    ch = True
    while ch:
        ch = False
        for k in trans:
            n = len(trans[k])
            for c in calls[k]:
                if c in trans:
                    trans[k] |= trans[c]
            if len(trans[k]) != n:
                ch = True
    edges = {}

    def one(f):
        p = Ord()
        e = esp.Engine(f, p)
        try:
            e.run()
        except esp.Limit:
            return []
        return [(a, b, i.where()) for a, b, i in p.pairs] + \
            [(a, ('call', c), i.where()) for a, c, i in p.cls]
    fs = [f for f in todo if any(locks.is_lock_op(i) for i in f.insts())]
    for f, r in zip(fs, pmap(one, fs)):
        for a, b, w in r:
            if b[0] == 'call':
                for c in ((f.tu, b[1]), b[1]):
                    for l in trans.get(c, ()):
                        if l != a:
                            edges.setdefault((a, l), '%s via %s()' % (w, b[1]))
            elif a != b:
                edges.setdefault((a, b), w)
    return edges


class Ord(locks.Locks):
    def __init__(self):
        super().__init__({}, nm)
        self.pairs, self.cls, self.kl = set(), set(), {}

    def lockacq(self, eng, st, inst, pl):
        c = locks.lock_class(eng.fn, inst) if (locks.is_spin(inst) or inst.callee in locks.LOCK) else None
        if c:
            self.kl[pl] = c
            for h in st.prop[0]:
                if h in self.kl:
                    self.pairs.add((self.kl[h], c, inst))

    def call(self, eng, st, inst, c, args):
        for h in st.prop[0]:
            if h in self.kl and c:
                self.cls.add((self.kl[h], c, inst))
        return super().call(eng, st, inst, c, args)


def cycle(edges):
    adj = {}
    for a, b in edges:
        adj.setdefault(a, []).append(b)
    col, st = {}, []

    def dfs(n):
        col[n] = 1
        st.append(n)
        for m in sorted(adj.get(n, ()), key=str):
            if col.get(m) == 1:
                return st[st.index(m):]
            if m not in col:
                r = dfs(m)
                if r:
                    return r
        st.pop()
        col[n] = 2
    for n in sorted(adj, key=str):
        if n not in col:
            r = dfs(n)
            if r:
                return r
