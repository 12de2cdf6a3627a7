"""Typestate of heap blocks: every block a function takes from the heap is, on every path
to a return, freed once, returned, or handed over; nothing is freed twice or used after."""
import re
import res
from esp import INF

LIBC = ('malloc', 'calloc', 'strdup', 'strndup', 'memalign', 'aligned_alloc')
FREE = ('free', 'cfree')
# external functions that release what they are given
EXTREL = {}
for a, r in (('EVP_CIPHER_CTX_new', 'EVP_CIPHER_CTX_free'), ('EVP_MD_CTX_new', 'EVP_MD_CTX_free'),
             ('BIO_new_mem_buf', 'BIO_free'), ('BIO_new', 'BIO_free'), ('BIO_new_fd', 'BIO_free'),
             ('BIO_new_file', 'BIO_free'), ('SSL_new', 'SSL_free'), ('SSL_CTX_new', 'SSL_CTX_free'),
             ('EVP_PKEY_CTX_new', 'EVP_PKEY_CTX_free'), ('EVP_PKEY_CTX_dup', 'EVP_PKEY_CTX_free'),
             ('PEM_read_bio_PrivateKey', 'EVP_PKEY_free'), ('PEM_read_bio_PUBKEY', 'EVP_PKEY_free'),
             ('PEM_read_bio_X509', 'X509_free'), ('SSL_get1_peer_certificate', 'X509_free'),
             ('xmlReaderForMemory', 'xmlFreeTextReader')):
    EXTREL[a] = r
TAKE = ('BIO_push', 'SSL_set_bio', 'pthread_create')
RELS = set(EXTREL.values())
KEEP = re.compile(r'^(sb_|__sb_|lstr_|mem|str|ps_|e_|__logger|logger|llvm\.|vsnprintf|snprintf|printf|fprintf)')


class Heap(res.Handles):
    def ispool(self, v):
        return v == ('c', 0) or v == ('g', 'mem_pool_libc') or (v[0] == 'g' and 'mem_pool_libc' in str(v))

    def init(self, eng, st):
        res.Handles.init(self, eng, st)

    def call(self, eng, st, inst, c, args):
        if c in ('__mp_imalloc', 'mp_imalloc'):
            if self.ispool(args[0]):
                self.sites.add((inst.id, 'mem', c))
                return self.fresh_block(eng, st, inst)
            return None
        if c in LIBC or c in EXTREL:
            self.sites.add((inst.id, 'mem', c))
            return self.acquire(eng, st, inst, 'mem', res.FAIL_NULL)
        if c in self.summ.acq or (self.tu, c) in self.summ.lacq:
            self.sites.add((inst.id, 'mem', c))
            return self.acquire(eng, st, inst, 'mem', res.FAIL_NULL)
        if c in ('__mp_irealloc', 'realloc', '__mp_irealloc_fallback'):
            for a in args:
                for e in self.holds(st, a):
                    self.drop(st, e)
            return None
        k = None
        if c == 'mp_ifree' and len(args) > 1:
            k = 1
        elif c in FREE or c in RELS:
            k = 0
        if k is not None:
            e = self.find(st, args[k])
            if e is not None:
                self.releases += 1
                if e[3] == 'rel':
                    self.report(eng, st, inst, 'double release', e)
                    return None
                st.prop = (st.prop - {e}) | {(e[0], e[1], e[2], 'rel')}
                if e[2] == -1:
                    self.entry_out.add('rel')
            return None
        if c in ('exit', '_exit', '_Exit', 'abort'):
            return []
        for n, a in enumerate(args):
            e = self.find(st, a)
            if e is not None and e[3] == 'rel':
                self.report(eng, st, inst, 'use after release', e)
            hs = self.holds(st, a)
            if hs:
                eff = 'escape' if c in TAKE else self.effect(c, n, 'mem')
                if eff in ('escape', 'mixed'):
                    for h in hs:
                        self.drop(st, h)
                elif eff == 'consume':
                    for h in hs:
                        if h[2] == -1:
                            self.entry_out.add('rel')
                        self.drop(st, h, rel=True)
            pl = eng.place(a)
            if pl is not None and pl[0][0] == 'a':
                for h in self.cells_with(eng, st, pl[0]):
                    if not self.borrows_ptr(c, n):
                        self.drop(st, h)
        return None

    def fresh_block(self, eng, st, inst):
        v = eng.fresh(st, inst.id)
        st.env[inst.id] = v
        st.prop = frozenset(x for x in st.prop if x[1] != v) | {('mem', v, inst.id, 'live')}
        st.con[v] = (-INF, INF, frozenset((0, -1)))
        eng.clobber(st, inst, inst.callee, [eng.val(st, o) for o in inst.ops])
        return [st]

    def borrows_ptr(self, c, n):
        return c is not None and KEEP.match(c) is not None

    def use(self, eng, st, inst, v):
        if inst.op in ('icmp', 'ptrtoint'):
            return
        res.Handles.use(self, eng, st, inst, v)

    def load(self, eng, st, inst, addr):
        self.touch(eng, st, inst, addr)

    def store(self, eng, st, inst, addr, val):
        self.touch(eng, st, inst, addr)
        if val[0] == '+' and val[-1] == -1 or (val[0] == '+' and -1 in val):
            # a reference count goes down: the other references keep it
            for e in self.holds(st, addr):
                self.drop(st, e)
        res.Handles.store(self, eng, st, inst, addr, val)

    def touch(self, eng, st, inst, addr):
        for e in st.prop:
            if e[3] == 'rel' and (addr == e[1] or (addr[0] == '+' and e[1] in res.syms_of(addr))):
                self.report(eng, st, inst, 'use after release', e)
