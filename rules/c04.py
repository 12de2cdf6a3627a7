"""C04: handles are released exactly once or handed over, on every path."""
import ir, res, esp, scope
from par import pmap

LEVEL = 'other'


def run(ctx):
    ctx.rule = ('ESP typestate over the SSA form of every product function that acquires '
                'an OS handle (descriptor, FILE, DIR, mapping, gz stream, dl handle), '
                'directly or through a repository wrapper that returns an owned handle: on '
                'every feasible path from the acquisition to a return the handle is '
                'released once, returned, or stored/passed to an owner; no release or use '
                'after a release.')
    ctx.assumptions = [
        'close() that fails is allowed to be retried (the library does so on EINTR)',
        'a handle stored in non-local memory, captured by a block or passed to an '
        'indirect call is owned by the receiver',
        'process exit releases everything (main functions of tools are not analysed)',
        'MAP_FIXED mappings replace pages that are already owned']
    dumps = ir.build(ctx.scratch)
    mods = ir.load_all(dumps)
    S = res.Summaries(scope.whole(mods))
    roots = [f for f in scope.roots(mods) if f.name != 'main']
    S.local = {}
    for f in roots:
        if f.link == 'int':
            S.local[(f.tu, f.name)] = f
    rounds = 0
    while True:
        rounds += 1
        acqn = set(S.acq) | set(res.CONV) | set(res.PAIR)
        todo = [f for f in roots if any(i.callee in acqn or (f.tu, i.callee) in S.lacq for i in f.calls())]

        def one(f):
            p = res.Handles(S, tu=f.tu)
            e = esp.Engine(f, p)
            try:
                e.run()
            except esp.Limit:
                return None
            reps = []
            for (what, kind, a, _), (inst, ai, path) in p.reports.items():
                reps.append((what, kind, ai.where() if ai else '?', ai.callee if ai else '?',
                             (ai.frames()[0][1] if ai and ai.frames() else f.src), inst.where(), path))
            sites = set()
            for iid, kind, c in p.sites:
                fr = f.defs[iid].frames()
                sites.add((fr[0][2], fr[0][0], kind, c) if fr else (f.file, f.name, kind, c))
            return reps, sites, p.rets, p.retargs, p.releases
        res_ = pmap(one, todo)
        ch = False
        for f, r in zip(todo, res_):
            if r is None:
                continue
            for k in r[2]:
                tgt = S.acq if f.link != 'int' else S.lacq
                key = f.name if f.link != 'int' else (f.tu, f.name)
                if key not in tgt:
                    tgt[key] = (k, res.FAIL_NEG if k == 'fd' else res.FAIL_NULL)
                    S.retarg[key] = frozenset(r[3])
                    ch = True
        if not ch or rounds > 6:
            break
    sites, rel, lim, seen = set(), 0, [], set()
    for f, r in zip(todo, res_):
        if r is None:
            lim.append(f.name)
            continue
        sites |= r[1]
        rel += r[4]
        for what, kind, aw, ac, innerfn, w, path in r[0]:
            key = '%s:%s:%s:%s' % (innerfn, ac, kind, what.replace(' ', '-'))
            if key in seen:
                continue
            seen.add(key)
            ctx.violation(key, '%s of %s acquired by %s at %s in %s(): path of %s() ends at %s '
                          '[lines %s]' % (what, kind, ac, aw, innerfn, f.src, w, path))
    ctx.floor('translation_units', len(mods), 100)
    ctx.floor('functions_analysed', len(todo) - len(lim), 50)
    ctx.floor('acquisition_sites', len(sites), 45)
    ctx.counts['releases_seen'] = rel
    ctx.counts['owned_handle_wrappers'] = sorted(str(k) for k in list(S.acq) + list(S.lacq) if k not in res.ACQ)
    ctx.counts['not_analysed_state_limit'] = lim
    ctx.samples = ['%s:%s %s by %s' % s for s in sorted(sites, key=str)]
