"""C06: scratch (t_) memory never outlives the scope it was allocated in."""
import ir, scope, scratch
from par import pmap

LEVEL = 'other'

# Objects that may hold scratch pointers, each read and found right.
EXEMPT = {
    'iopc_g': 'schema compiler: location stack, an entry is popped before its scope closes; the error paths that skip '
              'the pop end the compilation',
    'range_h_g': 'schema compiler: the key of the new slot is replaced by a copy right after the insertion',
    'pxcc_g': 'pxcc tool: the registry lives in the scope of main()',
    'subfiles_g': 'JSON unpacker: vector of the caller of t_iop_junpack_file, documented as filled with t_ memory',
    'ic_msg_proxy_new': 'RPC proxy: the header of the forwarded message is packed, or consumed by the local channel, '
                        'before the function returns',
}


def run(ctx):
    ctx.rule = ('forward dataflow, per function after inlining of static functions and inline helpers: the frame that '
                'each pointer to scratch memory belongs to; a frame closes at the end of its t_scope on every path. '
                'Reported: returning or using memory of a closed frame; a pointer into a frame that is still stored in '
                'memory of the caller, a global or the heap when the frame closes; scratch memory of the caller stored '
                'in a global or in a heap object')
    ctx.assumptions = [
        'functions named t_* and functions given the scratch pool return memory of the innermost open frame',
        'what a scratch object points to is not itself assumed to be scratch memory',
        'a call that destroys or resets an object drops the pointers stored in it',
        'functions called through pointers keep none of their arguments'] + \
        ['%s: %s' % kv for kv in EXEMPT.items()]
    dumps = ir.build(ctx.scratch, keep=scratch.KEEP)
    mods = ir.load_all(dumps)
    S = scratch.Summ()
    allf = [f for m in mods.values() for f in m.fns.values()]
    for f in allf:
        if f.link != 'int':
            S.argt[f.name] = f.argt

    def one(m):
        r = []
        for f in m.fns.values():
            a = scratch.An(f, S, summarise=True).run()
            if f.link != 'int' and (a.ret_taint or a.keeps):
                r.append((f.name, a.ret_taint, a.keeps))
        return r
    for rnd in range(6 if ctx.tier == 'thorough' else 3):
        ch = False
        for l in pmap(one, mods.values()):
            for n, rt, kp in l:
                if scratch.CALLER in rt and n not in S.ret0:
                    S.ret0.add(n)
                    ch = True
                ps = frozenset(x[1] for x in rt if x[0] == 'a')
                if ps != S.passes.get(n, frozenset()):
                    S.passes[n] = ps
                    ch = True
                if kp != S.keeps.get(n, set()):
                    S.keeps[n] = kp
                    ch = True
        if not ch:
            break
    fns = [f for f in allf if not scope.is_test(f)]

    def two(f):
        a = scratch.An(f, S, exempt=EXEMPT).run()
        return [(k, v[0].where()) for k, v in a.viol.items()], a.scopes, a.allocs, a.uses, a.used_ex
    nf = ns = na = nu = 0
    seen = set()
    for f, (v, s, al, u, ue) in zip(fns, pmap(two, fns)):
        nf += s > 0
        ns += s
        na += al
        nu += u
        seen |= ue
        if s and len(ctx.samples) < 30:
            ctx.samples.append('%s (%s)' % (f.name, f.file))
        for (what, inner, ex), where in v:
            ctx.violation('%s:%s:%s' % (inner, what.split()[0], ex), '%s in %s(): %s %s' % (what, f.name, where, ex))
    ctx.floor('functions_with_scopes', nf, 180)
    ctx.floor('scope_openings_analysed', ns, 900)
    ctx.floor('scratch_allocations_tracked', na, 2500)
    ctx.floor('uses_checked', nu, 6000)
    ctx.counts['functions_analysed'] = len(fns)
    ctx.counts['functions_returning_scratch'] = len(S.ret0)
    ctx.counts['exempt_holders_met'] = len(seen)
