"""Guard inventories: computed for a set of source files, frozen, compared."""
import os, re, json, collections
import ir, errs, scope, guards
from par import pmap

PASSES = 'function(early-cse<memssa>,instsimplify,jump-threading,simplifycfg,early-cse<memssa>)'


ALWAYS = ('e_error e_warning xmlr_fail yaml_env_set_err yaml_env_set_err_at iop_set_err iop_set_err2 '
          'opterror http2_conn_send_error').split()


def always_neg(mods):
    alw = set(ALWAYS)
    ch = True
    while ch:
        ch = False
        for m in mods.values():
            for f in m.fns.values():
                if f.ret != 'i32' or f.name in alw:
                    continue
                src = errs.ret_sources(f)
                if src and all((type(v) is tuple and v[0] == 'i' and v[1] < 0) or
                               (type(v) is int and f.defs.get(v) is not None and f.defs[v].op == 'call'
                                and f.defs[v].callee in alw) for v in src):
                    alw.add(f.name)
                    ch = True
    return alw


def modes(mods, base=None):
    glob, loc = {}, {}
    alw = always_neg(mods)

    def get(f, c):
        if not c:
            return None
        if c in alw:
            return 'neg'
        return loc.get((f.tu, c)) or glob.get(c) or errs.EXT.get(c)
    ch = True
    while ch:
        ch = False
        for m in mods.values():
            for f in m.fns.values():
                tab, key = (glob, f.name) if f.link != 'int' else (loc, (f.tu, f.name))
                if key in tab or f.name in alw:
                    continue
                mm = errs.mode_of(f, lambda c: get(f, c))
                if not mm and base:
                    b = base.get((f.file, f.name))
                    if (b == 'neg' and f.ret in ('i32', 'i64')) or (b == 'null' and f.ret == 'ptr'):
                        mm = b
                if mm:
                    tab[key] = mm
                    ch = True
    return glob, loc, alw


UNSTABLE = re.compile(r"\*L:%struct\.(pstream|bit_stream)|&L:|'|\?|gep\(|\brec\b|p_end|s_end|bit_ptroff|bit_stream_t|__PRETTY|\bK\b")


def depart(v):
    """Merged values have no stable name: P{...} and P become ~."""
    out, i = '', 0
    while i < len(v):
        if v.startswith('P{', i):
            d = 0
            while i < len(v):
                if v[i] == '{':
                    d += 1
                elif v[i] == '}':
                    d -= 1
                    if not d:
                        break
                i += 1
            i += 1
            out += '~'
        elif v[i] == 'P' and not re.match(r'\w', v[i - 1:i]) and not re.match(r'\w', v[i + 1:i + 2]):
            out += '~'
            i += 1
        else:
            out += v[i]
            i += 1
    return out


def stable(a):
    """Tests of named things: fields, results of calls, arguments, globals. What a local
    buffer or a merged value holds depends on how the code is laid out."""
    return a[0] == 'lin' and not UNSTABLE.search(a[1]) and 'P{' not in a[1] and not re.search(r'\bP\b', a[1]) \
        and len(a[1]) < 200


def norm(a):
    """Atom in comparable form, or None. A value without a stable name that is tested
    against a constant stays as `some value`."""
    if stable(a):
        return a
    if a[0] == 'lin':
        d = ('lin', depart(a[1])) + a[2:]
        if stable(d) and re.search(r'\w\.\w|C:|A:|\+16', d[1]):
            return d
    if a[0] != 'lin' or a[3] in (-1, 0, 1) or abs(a[3]) > 1 << 33:
        return None
    if re.search(r'\+(?=-?\d+\*|[A-Za-z*&(])', a[1].replace('|', '')):
        # the distance between two of them
        if a[3] > 0:
            return ('lin', '~-~', a[2], a[3], '')
        return ('lin', '~-~', {'le': 'ge', 'ge': 'le'}.get(a[2], a[2]), -a[3], '')
    return ('lin', '~', a[2], a[3], '')


def inventory(ctx, files, keep=None, failcall=None, base=None, passes=PASSES, tag='g'):
    """{(file, function): (mode, [guard])}; files: predicate on TU names"""
    dumps = ir.build(ctx.scratch, files=files, inline=20000, multi=3000, keep=keep, passes=passes, tag=tag)
    mods = ir.load_all(dumps)
    glob, loc, alw = modes(mods, base)
    fc = re.compile(failcall) if failcall else None
    todo, seen = [], set()
    for m in mods.values():
        for f in m.fns.values():
            if scope.is_test(f) or (f.file, f.name) in seen:
                continue
            mode = loc.get((f.tu, f.name)) if f.link == 'int' else glob.get(f.name)
            if not mode and fc and any(i.callee and fc.match(i.callee) for i in f.calls()):
                mode = 'call'
            if not mode:
                continue
            seen.add((f.file, f.name))
            todo.append((f, m, mode))

    def one(x):
        f, m, mode = x
        gs = guards.guards(f, m, mode, (lambda i: i.callee is not None and fc.match(i.callee)) if fc else None, alw)
        calls = {i.callee for i in f.calls() if i.callee and not i.callee.startswith('llvm.')}
        d = {}
        for g in gs:
            own = frozenset(norm(a) for a in g.own)
            if not own or None in own:
                if not g.msg:
                    continue
                own = frozenset([('msg', g.msg)])
                g.ctx = frozenset()
            g.own = own
            g.ctx = frozenset(a for a in g.ctx if stable(a))
            k = (tuple(sorted(map(str, g.own))), tuple(sorted(map(str, g.ctx))))
            e = d.setdefault(k, [g.own, g.ctx, set(), g.where, g.msg, set()])
            e[2].add(g.loc)
            e[5].add(frozenset(a for a in g.ins if stable(('lin', a[1], 'eq', 0, ''))))
        return mode, [(o, c, len(l), w, ms, ins) for o, c, l, w, ms, ins in d.values()], calls
    r = {}
    for (f, m, mode), v in zip(todo, pmap(one, todo)):
        r[(f.file, f.name)] = v
    allf = {(f.file, f.name) for m in mods.values() for f in m.fns.values()}
    return r, allf


def enc(own, ctx, n, msg='', ins=()):
    return json.dumps([sorted(map(list, own), key=str), sorted(map(list, ctx), key=str), n, msg,
                       sorted((sorted([[a[0], a[1], list(a[2])] for a in i], key=str) for i in ins), key=str) if any(ins) else []],
                      separators=(',', ':'))


def dec(s):
    o, c, n, m, ins = json.loads(s)
    return frozenset(map(tuple, o)), frozenset(map(tuple, c)), n, m, \
        {frozenset((a, b, tuple(c)) for a, b, c in i) for i in ins} or {frozenset()}


def save(path, inv, head):
    with open(path, 'w') as f:
        f.write(head)
        for (fi, fn), (mode, gs, calls) in sorted(inv.items()):
            f.write('F %s %s %s\n' % (fi, fn, mode))
            for o, c, n, w, ms, ins in sorted(gs, key=lambda g: enc(g[0], g[1], g[2])):
                f.write(enc(o, c, n, ms, ins) + '\n')


def read(path):
    r, cur = {}, None
    for l in open(path):
        l = l.rstrip('\n')
        if not l or l[0] == '#':
            continue
        if l[0] == 'F':
            _, fi, fn, mode = l.split(' ')
            cur = []
            r[(fi, fn)] = (mode, cur)
        else:
            cur.append(dec(l))
    return r


def coarse(atoms):
    r = set()
    for a in atoms:
        if a[0] == 'lin' and len(a) > 1 and type(a[1]) is str:
            r |= guards.leaves(re.sub(r"(?:^|\+)-?\d+\*", '+', a[1]).replace('+', ',').replace("'", ''))
    return frozenset(r)


def show(own, ctx=()):
    def one(a):
        if a[0] == 'msg':
            return 'the condition reported as "%s"' % a[1]
        if a[0] != 'lin':
            return str(a[1:])
        return '%s %s %s' % (a[1], {'eq': '==', 'ne': '!=', 'le': '<=', 'ge': '>='}[a[2]], a[3])
    s = ' and '.join(sorted(one(a) for a in own)) or '(always)'
    return s


def vecs(atoms):
    return {a[1] for a in atoms if a[0] == 'lin'}


def weaker(old, new):
    """the same quantity is tested against another bound"""
    if len(old) != 1 or len(new) != 1:
        return None
    (a,), (b,) = old, new
    if a[0] != 'lin' or b[0] != 'lin' or a[1] != b[1]:
        return None
    p, k, q, l = a[2], a[3], b[2], b[3]
    if p == q:
        return k != l
    if q == 'eq' and p in ('le', 'ge'):
        return True if (l < k if p == 'le' else l > k) else None
    if p == 'ne' and q in ('le', 'ge') and k != 0:
        return True
    return None


def harmless(a):
    """Being non-empty or non-null: skipping what there is nothing of."""
    return a[0] == 'lin' and (a[2], a[3]) in (('ne', 0), ('ge', 1)) and \
        re.search(r'(len|count|nb|n|tab|size|\+16)$', a[1]) is not None and '+-1*' not in a[1]


def cover(l, v):
    """(excluded, included) values of v; excluded None: only the included ones"""
    ex, inc = None, set()
    for i in l:
        a = [x for x in i if x[1] == v]
        if not a:
            return set(), set()
        ii = [set(x[2]) for x in a if x[0] == 'in']
        oo = set().union(*[set(x[2]) for x in a if x[0] == 'out'])
        if ii:
            inc |= set.intersection(*ii) - oo
        else:
            ex = oo if ex is None else ex & oo
    return ex, inc


def fewer(old, new):
    """Values for which a guard was in force and is not any more."""
    if not new or len(old) != len(new):
        return
    for v in sorted({x[1] for i in old for x in i}):
        if not all(any(x[1] == v for x in i) for i in old) or not any(x[1] == v for i in new for x in i):
            continue
        ex, inc = cover(old, v)
        ex2, inc2 = cover(new, v)
        if ex is None:
            lost = inc - inc2 if ex2 is None else inc & (ex2 - inc2)
        elif ex2 is None:
            continue
        else:
            lost = (ex2 - inc2) - ex
        if lost:
            yield '%s = %s' % (v, ', '.join(map(str, sorted(lost))))


def compare(old, new):
    """old: [(own, ctx, n)] frozen; new: [(own, ctx, n, where)]. Yields (kind, own, text)."""
    oc, nc = collections.Counter(), collections.Counter()
    O, N = {}, {}
    OM, NM = {}, {}
    OI, NI = {}, {}
    for o, c, n, ms, ins in old:
        oc[(o, c)] += n
        OM[(o, c)] = ms
        OI.setdefault(o, []).extend(ins)
    for o, c, n, w, ms, ins in new:
        NI.setdefault(o, []).extend(ins)
        nc[(o, c)] += n
        N[(o, c)] = w
        NM[(o, c)] = ms
    for o in OI:
        for x in fewer(OI[o], NI.get(o, ())):
            yield 'cases', o, 'refuses when %s no longer for %s' % (show(o), x), ''
    # 1. the same guard
    for k in list(oc):
        m = min(oc[k], nc.get(k, 0))
        oc[k] -= m
        nc[k] -= m
    oc, nc = +oc, +nc
    if not oc:
        return

    def match(pred):
        for k in list(oc):
            for l in list(nc):
                if oc[k] <= 0:
                    break
                if nc[l] > 0 and pred(k, l):
                    m = min(oc[k], nc[l])
                    oc[k] -= m
                    nc[l] -= m
    # 2. reached or fired under fewer conditions, of the same kind
    match(lambda k, l: l[0] == k[0] and vecs(l[0]) <= {'~', '~-~'})
    match(lambda k, l: (l[0] | l[1]) == (k[0] | k[1]) and l[0])
    match(lambda k, l: l[0] == k[0] and l[1] <= k[1])
    match(lambda k, l: l[0] and l[0] <= k[0] | k[1] and l[1] <= k[0] | k[1] and (k[0] <= l[0] | l[1]))
    # same test, circumstances described differently but over the same things
    match(lambda k, l: l[0] == k[0] and coarse(l[1]) <= coarse(k[1] | k[0]))
    rest = list((+oc).elements())
    for k in rest:
        ko, kc = k
        best = None
        for l in list(+nc):
            w = weaker(ko, l[0])
            if w and (coarse(l[1]) <= coarse(kc | ko) or coarse(kc) <= coarse(l[1] | l[0])):
                best = ('bound', 'now refuses %s instead of %s' % (show(l[0]), show(ko)), l)
                break
        if best is None:
            for l in list(+nc):
                if ko <= l[0] | l[1]:
                    x = [a for a in (l[0] | l[1]) - (ko | kc) if not harmless(a) and not coarse([a]) <= coarse(kc | ko)]
                    if x:
                        best = ('weaker', 'refuses only when also %s, besides %s' % (show(x), show(ko)), l)
                    else:
                        best = ('same', '', l)
                        break
        if best is None and OM.get(k):
            for l in list(+nc):
                if NM.get(l) == OM[k]:
                    best = ('same', '', l)
                    break
        if best is None:
            # another way to write a test of the same things
            for l in list(+nc):
                if coarse(l[0]) and coarse(l[0]) <= coarse(ko | kc) and coarse(ko) <= coarse(l[0] | l[1]) \
                        and weaker(ko, l[0]) is None:
                    best = ('same', '', l)
                    break
        if best is None:
            yield 'missing', ko, 'no longer refuses when %s' % show(ko), ''
        else:
            nc[best[2]] -= 1
            if best[0] != 'same':
                yield best[0], ko, best[1], N.get(best[2], '')


# ---------------------------------------------------------------- the rule
ROBUST = ('A guard is a branch from which every path ends in a failure result (negative, null, or a call that resets the '
          'peer) while the other side can still succeed. Guards are read off the control-flow graph of every failing '
          'function with its static callees inlined and written as sets of atoms over struct fields, call results and '
          'constants, with the conditions they depend on')


def data_path(prop):
    return os.path.join(ir.VERIF, 'data', 'guards_%s.txt' % prop.lower())


def run(ctx, files, floor, keep=None, failcall=None, drop=None):
    old = read(data_path(ctx.prop))
    base = {k: v[0] for k, v in old.items()}
    inv, allf = inventory(ctx, files, keep, failcall, base)
    if drop:
        inv = {k: v for k, v in inv.items() if not drop(k[0])}
    names = {}
    for fi, fn in inv:
        names.setdefault(fn, []).append((fi, fn))
    ng = nf = gone = 0
    for k, (mode, gs) in sorted(old.items()):
        if k not in allf:
            gone += 1
            continue
        nf += 1
        ng += sum(g[2] for g in gs)
        cur = list(inv[k][1]) if k in inv else []
        # functions split off it that are too big to be inlined
        seen = {k}
        work = list(inv[k][2]) if k in inv else []
        while work:
            c = work.pop()
            for k2 in names.get(c, ()):
                if k2 not in old and k2 not in seen:
                    seen.add(k2)
                    cur += inv[k2][1]
                    work += inv[k2][2]
        for kind, own, text, where in compare(gs, cur):
            ctx.violation('%s:%s:%s' % (k[1], kind, show(own)),
                          '%s() %s (%s)%s' % (k[1], text, k[0], (', ' + where) if where else ''))
    ctx.counts['functions_with_guards_gone'] = gone
    ctx.floor('functions_compared', nf, floor[0])
    ctx.floor('guards_compared', ng, floor[1])
    ctx.counts['functions_that_can_refuse'] = len(inv)
    ctx.counts['guards_now'] = sum(g[2] for v in inv.values() for g in v[1])
    for (fi, fn), (mode, gs) in list(sorted(old.items()))[::max(1, len(old) // 12)]:
        for o, c, n, ms, ins in gs[:2]:
            ctx.samples.append('%s() refuses when %s' % (fn, show(o)))


def freeze(ctx, files, keep=None, failcall=None, drop=None):
    inv, allf = inventory(ctx, files, keep, failcall)
    inv = {k: v for k, v in inv.items() if v[1] and not (drop and drop(k[0]))}
    save(data_path(ctx.prop), inv, '# file function convention; then [atoms, context, number of places] per guard\n')
    print(len(inv), 'functions', sum(len(v[1]) for v in inv.values()), 'guards')
