"""C05: heap memory is released exactly once, on every path."""
import re
import ir, scope, heap, boxes, res, esp, effects
from par import pmap

LEVEL = 'other'

# (function, report) read and found right; the reason is what the analysis cannot see.
HEAP_OK = {
    ('sp_alloc_libc', 'leak'): 'returns the block moved by a variable distance, which the free function undoes',
    ('pow5mult', 'leak'): 'number formatting: the powers are kept in a global list on purpose',
    ('unpack_struct', 'use after release'): 'JSON reader: the class is prepared once per object',
    ('unpack_struct', 'leak'): 'JSON reader: the class is prepared once per object',
    ('unpack_struct', 'double release'): 'JSON reader: the class is prepared once per object',
    ('parse_struct_snmp_from', 'leak'): 'schema compiler: the token has already been looked at and is a name',
}
BOX_OK = {
    ('aper_encode_field', 'qv'): 'debug marks of the bit buffer, wiped with it',
    ('qhash_move32', 'qv'): 'first append to a vector with room', ('qhash_move64', 'qv'): 'first append to a vector with room',
    ('qhash_move128', 'qv'): 'first append to a vector with room', ('qhash_move_ptr', 'qv'): 'first append to a vector with room',
    ('qhash_move_vec', 'qv'): 'first append to a vector with room',
    ('t_yaml_env_parse_tag', 'sb'): 'buffer of the exact size', ('unpack_val', 'sb'): 'buffer of the exact size',
    ('get_text', 'sb'): 'buffer of the exact size', ('xunpack_struct', 'qv'): 'room reserved beforehand',
    ('__iop_jpack_file', 'qh'): 'only set up when the schema has sub-files, and wiped then',
}
FILES = re.compile(r'^src/')


def _only(e):
    return e[0] == 'objs' or effects.releases(e)


def freeze(ctx):
    effects.freeze(ctx, None, want=lambda f: FILES.search(f.file), only=_only)


def _heap(ctx, mods):
    S = res.Summaries(scope.whole(mods), heap.Heap)
    S.acq = {}
    roots = [f for f in scope.roots(mods) if f.name != 'main']
    for f in roots:
        if f.link == 'int':
            S.local[(f.tu, f.name)] = f

    def one(f):
        p = heap.Heap(S, tu=f.tu)
        e = esp.Engine(f, p)
        try:
            e.run()
        except esp.Limit:
            return None
        return ([(what, ai.where() if ai else '?', ai.callee if ai else '?', inst.where(), path)
                 for (what, kind, a, _), (inst, ai, path) in p.reports.items()], p.rets, len(p.sites))
    todo = rs = ()
    for rnd in range(6):
        acqn = set(S.acq) | set(heap.LIBC) | set(heap.EXTREL) | {'__mp_imalloc'}
        todo = [f for f in roots if any(i.callee in acqn or (f.tu, i.callee) in S.lacq for i in f.calls())]
        rs = pmap(one, todo)
        ch = False
        for f, r in zip(todo, rs):
            if r and r[1]:
                tgt, key = (S.acq, f.name) if f.link != 'int' else (S.lacq, (f.tu, f.name))
                if key not in tgt:
                    tgt[key] = ('mem', res.FAIL_NULL)
                    ch = True
        if not ch:
            break
    met = set()
    for f, r in zip(todo, rs):
        if not r:
            continue
        for what, aw, ac, w, path in r[0]:
            k = (f.src, what)
            if k in HEAP_OK:
                met.add(k)
                continue
            ctx.violation('%s:%s:%s' % (f.src, what, ac), '%s() %s: %s of the block from %s() at %s; path %s' %
                          (f.src, w, what, ac, aw, path))
    ctx.floor('heap_functions', len(todo), 300)
    ctx.floor('heap_allocation_sites', sum(r[2] for r in rs if r), 300)
    ctx.counts['heap_functions_too_large'] = sum(r is None for r in rs)
    ctx.counts['heap_confirmed_met'] = len(met)
    ctx.counts['functions_returning_heap_memory'] = len(S.acq) + len(S.lacq)
    for f in todo[::20]:
        ctx.samples.append('heap blocks of %s (%s)' % (f.src, f.file))


def _boxes(ctx, mods):
    E = boxes.Effects(mods)
    todo = [f for f in scope.roots(mods) if f.name != 'main' and E.boxes(f)]

    def one(f):
        p = boxes.Boxes(E, f)
        e = esp.Engine(f, p)
        try:
            e.run()
        except esp.Limit:
            return None
        return [(x[2], f.vn.get(x[0]), i.where(), g.where(), g.callee, path) for x, (i, g, path) in p.reports.items()], len(p.sites)
    rs = pmap(one, todo)
    met = set()
    names = {'sb': 'string buffer', 'qv': 'vector', 'qh': 'hash table', 'bb': 'bit buffer'}
    for f, r in zip(todo, rs):
        for kind, var, w, gw, gc, path in (r[0] if r else ()):
            if (f.src, kind) in BOX_OK:
                met.add((f.src, kind))
                continue
            ctx.violation('%s:%s:unwiped' % (f.src, kind), '%s(): the %s `%s` given memory by %s() at %s is not wiped when it '
                          'returns at %s; path %s' % (f.src, names[kind], var, gc, gw, w, path))
    ctx.floor('container_functions', len(todo), 180)
    ctx.floor('local_containers', sum(r[1] for r in rs if r), 200)
    ctx.counts['container_functions_too_large'] = sum(r is None for r in rs)
    ctx.counts['container_confirmed_met'] = len(met)


def run(ctx):
    ctx.rule = ('(a) typestate of heap blocks over every path of every function that takes some, after inlining of static '
                'functions, with computed summaries of the functions that return, keep or free a block: freed once, returned or '
                'handed over; (b) typestate of local strings, vectors, tables and bit buffers: wiped, moved or handed over on '
                'every path once they may hold heap memory; (c) every release in the reviewed inventory (data/effects_c05.txt) of what each '
                'function releases is still made, and on no narrower conditions')
    ctx.assumptions = ['memory reached through an argument or a global is owned by its holder',
                       'a block stored in an object is the business of the teardown of that object (c)',
                       'functions called through pointers neither free nor keep their arguments unless a summary says so'] + \
        ['%s (%s): %s' % (k + (v,)) for k, v in list(HEAP_OK.items()) + list(BOX_OK.items())]
    dumps = ir.build(ctx.scratch)
    mods = ir.load_all(dumps)
    _heap(ctx, mods)
    _boxes(ctx, mods)
    del mods
    effects.run(ctx, None, (200, 500), kinds=('missing', 'narrower'))
