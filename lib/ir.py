"""Builds LLVM bitcode for every translation unit of /repo's current working
tree, normalises it with build/irdump, and loads the dumps."""
import json, os, re, subprocess, sys, tempfile, shutil, hashlib, gc
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = '/usr/lib/llvm-18/bin/clang'
IRDUMP = os.path.join(VERIF, 'build', 'irdump')

# Translation units that are not part of the analysed library: test frameworks,
# benchmarks and the Cython output of iopy.
SKIP = re.compile(r'^src/(iopy/|core/z\.blk|core/zchk-helpers|core/zbenchmark|'
                  r'core/mem-bench)')


class AnalysisBroken(Exception):
    """The analysis could not be carried out (never a pass, never a violation)."""


def broken(msg):
    raise AnalysisBroken(msg)


def compile_db():
    p = os.path.join(REPO, 'compile_commands.json')
    if not os.path.exists(p) or not os.path.exists(os.path.join(REPO, 'src/core/core.iop.h')):
        r = subprocess.run(['bash', '/opt/vp/build.sh'], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        if r.returncode:
            broken('no compile_commands.json and the build failed')
    db = json.load(open(p))
    srcs = {}
    for e in db:
        f = e['file']
        a = e['arguments']
        if not f.startswith('src/') or f.endswith('.h') or '.in.c' in f:
            continue
        if f not in a or SKIP.match(f) or f in srcs:
            continue
        if not os.path.exists(os.path.join(REPO, f)):
            continue
        args = []
        for x in a[1:]:
            if (x.startswith('-o') and len(x) > 2) or x[:2] in ('-W', '-O') \
               or x == '-c' or x.startswith('-x') or x.startswith('-D_FORTIFY') \
               or x == f:
                continue
            args.append(x)
        srcs[f] = args
    if len(srcs) < 100:
        broken('only %d translation units in the compilation database' % len(srcs))
    return srcs


def _gen_huffman(scratch):
    """hpack's tables come from a generator; take the current tree's."""
    return []


def build(scratch, files=None, inline=4000, multi=400, keep=None, force=None,
          passes=None, tag='d', ext=0):
    """Compiles the TUs matching `files` (predicate) and dumps them.
    Returns {src: dump path}."""
    if not os.path.exists(IRDUMP):
        r = subprocess.run([os.path.join(VERIF, 'tools/build.sh')])
        if r.returncode:
            broken('cannot build irdump')
    srcs = compile_db()
    if files:
        srcs = {f: a for f, a in srcs.items() if files(f)}
    os.makedirs(scratch, exist_ok=True)

    def one(f):
        base = os.path.join(scratch, f.replace('/', '__'))
        bc = base + '.bc'
        out = base + '.' + tag + '.jl'
        if not os.path.exists(bc):
            cmd = [CLANG] + srcs[f] + ['-w', '-O0', '-g', '-Xclang',
                  '-disable-O0-optnone', '-fblocks', '-emit-llvm', '-c', '-x', 'c',
                  f, '-o', bc]
            r = subprocess.run(cmd, cwd=REPO, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                return f, None, r.stdout[:2000]
        cmd = [IRDUMP, bc, out]
        if inline:
            cmd += ['--inline', str(inline), '--inline-multi', str(multi)]
        if ext:
            cmd += ['--inline-ext', str(ext)]
        if keep:
            cmd += ['--keep', keep]
        if force:
            cmd += ['--force', force]
        if passes:
            cmd += ['--passes', passes]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=300)
        except subprocess.TimeoutExpired:
            return f, None, 'irdump timed out'
        if r.returncode:
            return f, None, r.stdout[:2000]
        return f, out, None

    res = {}
    with ThreadPoolExecutor(8) as ex:
        for f, out, err in ex.map(one, sorted(srcs)):
            if err is not None:
                broken('%s does not compile/dump: %s' % (f, err))
            res[f] = out
    return res


def parse_op(o):
    if type(o) is int:
        return o
    if type(o) is str:
        if o[:2] == 'i:':
            _, v, w = o.split(':')
            return ('i', int(v), int(w))
        if o[:2] == 'g:':
            return ('g', o[2:])
        if o[:2] == 'f:':
            return ('f', o[2:])
        return (o,)
    k = o[0]
    if k == 'gep':
        return ('gep', parse_op(o[1]), o[2], o[3])
    if k == 'ce':
        return ('ce', o[1]) + tuple(parse_op(x) for x in o[2:])
    if k == 'str':
        return ('str', o[1])
    if k == 'zero':
        return ('zero', o[1])
    if k == 'ints':
        return ('ints', o[1], tuple(o[2]))
    if k == 'arr':
        return ('arr', tuple(parse_op(x) for x in o[1]))
    if k == 'st':
        return ('st', o[1], tuple(parse_op(x) for x in o[2]))
    return ('?',)


class Inst:
    __slots__ = ('id', 'op', 'ty', 'ops', 'x', 'loc', 'bb', 'idx')

    def __init__(self, r, bb, idx):
        self.id = r[0]
        self.op = r[1]
        self.ty = r[2]
        self.ops = [parse_op(o) for o in r[3]]
        if len(r) == 6:
            self.x = r[4]
            self.loc = r[5]
        else:
            self.x = None
            self.loc = r[-1]
        if self.op in ('udiv', 'urem'):
            # one form for the operations with a power of two
            c = self.ops[1]
            if type(c) is tuple and c[0] == 'i' and c[1] > 0 and c[1] & (c[1] - 1) == 0:
                if self.op == 'udiv':
                    self.op, self.ops[1] = 'lshr', ('i', c[1].bit_length() - 1, c[2])
                else:
                    self.op, self.ops[1] = 'and', ('i', c[1] - 1, c[2])
        self.bb = bb
        self.idx = idx

    @property
    def callee(self):
        """Name of the called function, or None (indirect / asm)."""
        f = self.x['f']
        if type(f) is str and f[:2] == 'g:':
            return f[2:]
        return None

    def frames(self):
        l = self.loc or []
        return [(l[i], l[i + 1], l[i + 2]) for i in range(0, len(l), 3)]

    def where(self):
        """Position in the outermost frame (the function that is analysed),
        followed by the innermost one if the code was inlined."""
        fr = self.frames()
        if not fr:
            return '?'
        o = fr[-1]
        s = '%s:%d' % (o[2], o[0])
        if len(fr) > 1:
            i = fr[0]
            s += ' (in %s, %s:%d)' % (i[1], i[2], i[0])
        return s


class Fn:
    __slots__ = ('name', 'src', 'file', 'line', 'link', 'noret', 'va', 'ret',
                 'args', 'argt', 'bbs', 'vn', 'defs', 'preds', 'succs', 'tu',
                 '_ipd', '_dom', 'nargs')

    def __init__(self, d, tu):
        self.tu = tu
        self.name = d['n']
        self.src = d['src']
        self.file = d['file']
        self.line = d['line']
        self.link = d['link']
        self.noret = d['noret']
        self.va = d['va']
        self.ret = d['ret']
        self.args = d['args']
        self.argt = d['argt']
        self.nargs = len(self.args)
        self.vn = {int(k): v for k, v in d['vn'].items()}
        self.bbs = []
        self.defs = {}
        for i, b in enumerate(d['bbs']):
            l = [Inst(r, i, j) for j, r in enumerate(b)]
            self.bbs.append(l)
            for x in l:
                self.defs[x.id] = x
        self.succs = []
        for b in self.bbs:
            t = b[-1]
            if t.op == 'br':
                s = list(t.x)
            elif t.op == 'switch':
                s = [t.x[0]] + [c[1] for c in t.x[1:]]
            else:
                s = []
            self.succs.append(s)
        self.preds = [[] for _ in self.bbs]
        for i, s in enumerate(self.succs):
            for j in dict.fromkeys(s):
                self.preds[j].append(i)
        self._dom = None

    def insts(self):
        for b in self.bbs:
            yield from b

    def calls(self):
        for b in self.bbs:
            for i in b:
                if i.op in ('call', 'invoke'):
                    yield i

    def is_arg(self, v):
        return type(v) is int and v < self.nargs

    def name_of(self, v):
        return self.vn.get(v) if type(v) is int else None

    def rpo(self):
        seen = set()
        order = []
        st = [(0, iter(self.succs[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succs[s])))
                    break
            else:
                order.append(b)
                st.pop()
        return order[::-1]

    def doms(self):
        if self._dom is None:
            order = self.rpo()
            pos = {b: i for i, b in enumerate(order)}
            idom = {0: 0}
            ch = True
            while ch:
                ch = False
                for b in order[1:]:
                    new = None
                    for p in self.preds[b]:
                        if p in idom:
                            if new is None:
                                new = p
                            else:
                                a, c = p, new
                                while a != c:
                                    while pos[a] > pos[c]:
                                        a = idom[a]
                                    while pos[c] > pos[a]:
                                        c = idom[c]
                                new = a
                    if idom.get(b) != new:
                        idom[b] = new
                        ch = True
            self._dom = idom
        return self._dom

    def dominates(self, a, b):
        d = self.doms()
        while True:
            if a == b:
                return True
            if b == 0 or b not in d:
                return False
            b = d[b]


class Module:
    def __init__(self, tu):
        self.tu = tu
        self.fns = {}
        self.globals = {}
        self.structs = {}
        self.ists = {}
        self.enums = {}
        self.decls = {}


def load(tu, path, want=None):
    m = Module(tu)
    with open(path, encoding='utf-8') as f:
        for line in f:
            d = json.loads(line)
            k = d['k']
            if k == 'fn':
                if want is None or want(d):
                    m.fns[d['n']] = Fn(d, tu)
                else:
                    m.decls[d['n']] = 0
            elif k == 'g':
                m.globals[d['n']] = d
            elif k == 'st':
                m.structs.setdefault(d['n'], d)
            elif k == 'ist':
                m.ists[d['n']] = d
            elif k == 'enum':
                m.enums.setdefault(d['n'], []).append(d)
            elif k == 'decl':
                m.decls[d['n']] = d['noret']
    return m


def load_all(dumps, want=None):
    gc.disable()
    mods = {}
    for f, p in dumps.items():
        mods[f] = load(f, p, want)
    gc.enable()
    return mods
