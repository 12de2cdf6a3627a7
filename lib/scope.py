"""Which functions count: product code, not the self-tests embedded in sources."""
import re
TEST = re.compile(r'^(__)?z_|^zhttp|^__zhttp|^Z_|^z[0-9]|^__z[a-z]*_test')


def is_test(fn):
    return bool(TEST.match(fn.src) or TEST.match(fn.name))


def whole(mods):
    """External-linkage functions of the program by name."""
    ix = {}
    for m in mods.values():
        for n, f in m.fns.items():
            if f.link != 'int':
                ix[n] = f
    return ix


def addr_taken(mods):
    """Names of functions whose address is used other than as a direct callee."""
    r = set()

    def walk(o):
        if type(o) is tuple and len(o) > 1 and o[0] == 'g' and type(o[1]) is str:
            r.add(o[1])
        elif type(o) in (tuple, list):
            for x in o:
                walk(x)
        elif type(o) is str and o.startswith('g:'):
            r.add(o[2:])
    import ir
    for m in mods.values():
        for g in m.globals.values():
            if g['init'] is not None:
                walk(ir.parse_op(g['init']))
        for f in m.fns.values():
            for i in f.insts():
                for o in i.ops:
                    if type(o) is tuple:
                        walk(o)
    return r


def roots(mods):
    """Functions to analyse: everything callable from outside its unit, plus static
    functions that are still called somewhere (not inlined everywhere)."""
    at = addr_taken(mods)
    out = []
    for m in mods.values():
        called = set()
        for f in m.fns.values():
            for i in f.calls():
                c = i.callee
                if c and c != f.name:
                    called.add(c)
        for n, f in m.fns.items():
            if is_test(f):
                continue
            if f.link != 'int' or n in at or n in called:
                out.append(f)
    return out
