"""C08: a failure is acted on: its result is looked at, and a caller that sees it
does not report success."""
import os
import ir, scope, errs, esp
from par import pmap

LEVEL = 'other'
DATA = os.path.join(ir.VERIF, 'data', 'c08_confirmed.txt')

# why results of these callees may be unused, or their failure not be one of the caller
WHY = {
    'el_unregister el_fd_unregister el_timer_unregister qhp_timer_remove el_fs_watch_disable':
        'unregistering returns the private pointer, not a status',
    'p_close munmap gzclose unlinkat rmdir_r inflateReset log_file_flush flock':
        'teardown: nothing is left to do when it fails, or the close that follows reports it',
    'madvise mprotect setsockopt fsync fd_set_features': 'advisory',
    'sigaction gettimeofday dup2 pthread_setspecific pthread_mutex_init pthread_key_create pthread_join epoll_ctl '
    'SSL_set_fd': 'fails on programming errors only',
    'ps_skip ps_skipc __ps_skipc ps_skipstr ps_skiplstr ps_skip_upto ps_skip_afterchr ps_shrinkc ps_clip_atlastchr '
    'ps_get_ps_chr ps_get_ps_chr_and_skip ps_skip_uptochr bs_align strrtrim cf_stack_pop hexdecode '
    'list_dir_set_dirent_type': 'the data is known to be there, or absence is a normal case of the grammar',
    'qps_hptr_w_deref qps_pg_deref': 'pointer into the store, the address is taken again through the handle',
    'iop_sb_jpack iop_jpack sb_add_compressed': 'packs into memory: cannot fail there, or used for traces',
    'path_simplify2 path_extend path_expand path_canonify path_relative_to iopc_set_path':
        'paths that were accepted before, truncation shows when the path is opened',
}


def load():
    A, B, M = set(), set(), {}
    for l in open(DATA):
        w = l.split()
        if not w or w[0] == '#':
            continue
        if w[0] == 'fn':
            M[w[1]] = w[2]
        else:
            (A if w[0] == 'unused' else B).add((w[1], w[2], w[3]))
    return A, B, M


def analyse(ctx):
    dumps = ir.build(ctx.scratch, inline=0)
    mods = ir.load_all(dumps)
    base = load()[2] if os.path.exists(DATA) else {}
    glob, loc = {}, {}

    def get(f, c):
        if not c:
            return None
        return loc.get((f.tu, c)) or glob.get(c) or errs.EXT.get(c)
    ch = True
    while ch:
        ch = False
        for m in mods.values():
            for f in m.fns.values():
                tab, key = (glob, f.name) if f.link != 'int' else (loc, (f.tu, f.name))
                if key in tab or errs.NOTFAIL.match(f.src):
                    continue
                mm = errs.mode_of(f, lambda c: get(f, c))
                if not mm:
                    b = base.get(f.name)
                    if (b == 'neg' and f.ret in ('i32', 'i64')) or (b == 'null' and f.ret == 'ptr'):
                        mm = b
                if mm:
                    tab[key] = mm
                    ch = True
    fns, seen = [], set()
    for m in mods.values():
        for f in m.fns.values():
            k = (f.name, f.file, f.line)
            if scope.is_test(f) or k in seen:
                continue
            seen.add(k)
            fns.append(f)

    def one(f):
        uses = set()
        for i in f.insts():
            for o in i.ops:
                if type(o) is int:
                    uses.add(o)
            if i.op == 'getelementptr':
                for v in i.x['i']:
                    if type(v) is int:
                        uses.add(v)
        n, un = 0, []
        for i in f.calls():
            c = i.callee
            if c and i.ty != 'void' and get(f, c):
                n += 1
                if i.id not in uses:
                    un.append((c, i.where()))
        own = loc.get((f.tu, f.name)) if f.link == 'int' else glob.get(f.name)
        sw, nb, lim = [], 0, False
        if own:
            p = errs.Fail(lambda c: get(f, c), own)
            try:
                esp.Engine(f, p, max_time=30).run()
            except esp.Limit:
                lim = True
            nb = p.n
            sw = [(c, a.where(), b.where(), path) for (c, iid), (a, b, path) in p.reports.items()]
        return own, n, un, nb, sw, lim
    return fns, pmap(one, fns)


def run(ctx):
    ctx.rule = ('fallible operations: every repository function that returns a negative constant or null on some path or '
                'forwards the result of one that does, plus a table of system, zlib and OpenSSL calls. At every call '
                'site in product code the result is used; and in every function that itself reports failure, ESP '
                'simulation of each call failing: no path on which the call failed (and was not retried) ends with a '
                'success value. Sites where that is right were read one by one and are listed in data/c08_confirmed.txt')
    ctx.assumptions = ['%s: %s' % (k, v) for k, v in WHY.items()] + [
        'formatting, logging, lookup and comparison functions do not report failures by their result',
        'a function that is not in the list of known functions inherits the confirmed sites of its file']
    A, B, M = load()
    fa = {(f, c) for f, _, c in A}
    fb = {(f, c) for f, _, c in B}
    fns, res = analyse(ctx)
    nf = nc = nb = nu = ns = 0
    lims = []
    names = {f.name for f in fns}
    # a function that is gone may have been merged into another one of its file
    fgone = {(f, c) for f, g, c in A | B if g not in names}

    def ok(tab, ftab, f, c):
        if (f.file, f.name, c) in tab:
            return True
        if (f.file, c) in fgone:
            return True
        return f.name not in M and (f.file, c) in ftab
    for f, (own, n, un, b, sw, lim) in zip(fns, res):
        nc += n
        nb += b
        nf += bool(own)
        if lim:
            lims.append(f.name)
        for c, w in un:
            nu += 1
            if not ok(A, fa, f, c):
                ctx.violation('%s:%s:unused' % (f.name, c), 'the result of %s() is dropped in %s(): %s' % (c, f.name, w))
        for c, a, e, path in sw:
            ns += 1
            if not ok(B, fb, f, c) and not ok(A, fa, f, c):
                ctx.violation('%s:%s:swallowed' % (f.name, c), '%s() fails at %s, yet %s() reports success at %s '
                              '[lines %s]' % (c, a, f.name, e, path))
    ctx.floor('functions_that_report_failure', nf, 900)
    ctx.floor('fallible_call_sites', nc, 2500)
    ctx.floor('failures_simulated', nb, 4000)
    ctx.counts['functions_analysed'] = len(fns)
    ctx.counts['confirmed_unused_results_met'] = nu
    ctx.counts['confirmed_fallbacks_met'] = ns
    ctx.counts['not_analysed_state_limit'] = lims


def freeze(ctx):
    fns, res = analyse(ctx)
    out = ['# confirmed sites: kind file function callee; then every known function and how it reports failure']
    l = set()
    for f, (own, n, un, b, sw, lim) in zip(fns, res):
        for c, w in un:
            l.add('unused %s %s %s' % (f.file, f.name, c))
        for c, a, e, path in sw:
            l.add('fallback %s %s %s' % (f.file, f.name, c))
    out += sorted(l) + sorted({'fn %s %s' % (f.name, r[0] or '-') for f, r in zip(fns, res)})
    open(DATA, 'w').write('\n'.join(out) + '\n')
