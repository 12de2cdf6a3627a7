"""Fallible calls: which functions report failure and how, and where a failure
goes."""
import re
import esp
from esp import Prop, INF

NEGX = '''open openat open64 creat read write pread pwrite readv writev preadv pwritev lseek lseek64 fstat stat lstat fstatat
rename renameat link symlink mkdir mkdirat rmdir unlinkat ftruncate truncate fsync fdatasync fchmod fchown chmod chown
socket bind listen accept accept4 connect getsockname getpeername getsockopt setsockopt send sendto sendmsg recv recvfrom
recvmsg fcntl fcntl64 dup dup2 dup3 pipe pipe2 fork waitpid wait4 kill sigaction sigprocmask epoll_create epoll_create1
epoll_ctl epoll_wait eventfd inotify_init inotify_init1 inotify_add_watch gettimeofday clock_gettime getrlimit setrlimit
chdir readlink munmap mprotect msync mlock madvise sendfile splice tee futimens utimensat flock lockf getcwd_
vsnprintf_ fseeko ftello fflush_ gethostname'''.split()
NULLX = '''fopen fdopen opendir fdopendir gzopen gzdopen dlopen mmap_ getcwd realpath readlink_ getenv_
EVP_MD_CTX_new EVP_CIPHER_CTX_new EVP_PKEY_CTX_new BIO_new BIO_new_mem_buf BIO_new_file SSL_CTX_new SSL_new
PEM_read_bio_X509 PEM_read_bio_PrivateKey PEM_read_bio_PUBKEY PEM_read_PUBKEY PEM_read_PrivateKey X509_get_pubkey
EVP_PKEY_get1_RSA EVP_PKEY_CTX_dup BIO_new_fd RSA_new BN_new xmlReaderForMemory xmlReaderForFd'''.split()
POSX = '''posix_fallocate pthread_create pthread_join pthread_key_create pthread_mutex_init pthread_setspecific
posix_memalign getaddrinfo'''.split()
# zlib: Z_OK (0) or Z_STREAM_END (1) is success, others negative
ZLIB = '''inflate deflate compress compress2 uncompress deflateReset inflateReset deflateInit2_ inflateInit2_ deflateInit_
inflateInit_ gzclose'''.split()
# OpenSSL: 1 is success, 0 is failure
ONEX = '''EVP_DigestInit EVP_DigestInit_ex EVP_DigestUpdate EVP_DigestFinal EVP_DigestFinal_ex EVP_EncryptInit_ex
EVP_EncryptUpdate EVP_EncryptFinal_ex EVP_DecryptInit_ex EVP_DecryptUpdate EVP_DecryptFinal_ex EVP_CipherInit_ex
EVP_CipherUpdate EVP_CipherFinal_ex EVP_BytesToKey SSL_CTX_use_certificate SSL_CTX_use_PrivateKey
SSL_CTX_use_PrivateKey_file SSL_CTX_use_certificate_file SSL_CTX_check_private_key SSL_CTX_load_verify_locations
SSL_CTX_set_cipher_list SSL_set_fd RAND_bytes PEM_write_bio_PUBKEY EVP_DigestSignInit EVP_DigestVerifyInit
EVP_DigestSignFinal SSL_CTX_add1_chain_cert X509_STORE_add_cert PEM_write_bio_PrivateKey PKCS7_verify
SSL_CTX_use_certificate_chain_file SSL_CTX_set_default_verify_paths CMS_verify BIO_write_ex'''.split()
# OpenSSL: positive is success, 0 and negative are failures
LE0X = '''EVP_PKEY_encrypt_init EVP_PKEY_encrypt EVP_PKEY_decrypt_init EVP_PKEY_decrypt EVP_PKEY_sign_init EVP_PKEY_sign
EVP_PKEY_verify_init EVP_PKEY_verify EVP_VerifyFinal EVP_SignFinal EVP_DigestVerifyFinal EVP_DigestVerify EVP_DigestSign
EVP_PKEY_CTX_set_rsa_padding EVP_PKEY_CTX_ctrl EVP_PKEY_CTX_set_signature_md SSL_connect SSL_accept
SSL_do_handshake'''.split()

EXT = {}
for n in NEGX:
    EXT[n] = 'neg'
for n in ZLIB:
    EXT[n] = 'neg'
for n in NULLX:
    EXT[n] = 'null'
for n in POSX:
    EXT[n] = 'nz'
for n in ONEX:
    EXT[n] = 'zero'
for n in LE0X:
    EXT[n] = 'le0'
for n in 'fwrite fread gzwrite gzread SSL_read SSL_write sctp_sendmsg sctp_recvmsg'.split():
    EXT[n] = 'any'       # a count: its result has to be used, no failure value
EXT['mmap'] = EXT['mmap64'] = 'map'


# Functions whose negative or null result is not a failure report.
NOTFAIL = re.compile(
    r'^(sb_v?(add|prepend|set)v?f|sb_(add|prepend|set)v?f|i?(v?s?n?printf|vf?printf|fprintf|v?dprintf|vs?n?printf|vsprintf)|ifput.*|'
    r'__?logger_.*|logger_v?(log|fatal|panic)|e_.*|'                      # formatting and logging: a length or a level
    r'q[hm]_.*_(find|del_key|replace|scan).*|qhash_.*|.*_find(_.*)?|.*_lookup|.*_search(_.*)?|'  # lookups: absent
    r'ps_(peekc|getc|getuc|peekuc|endswith.*|startswith.*|is_.*)|.*_(cmp|compare)|.*cmp(_.*)?|.*_is_.*|.*_has_.*|'
    r'str(i|n)?(cmp|case).*|.*_next|.*_prev|.*_last|.*_first|.*_peek|.*_get_fd|dlist_.*|.*_to_str|.*_desc|.*_dist.*)$')


def ret_sources(fn):
    """Values the function may return, phi and select resolved."""
    out, seen = set(), set()
    work = [b[-1].ops[0] for b in fn.bbs if b[-1].op == 'ret' and b[-1].ops]
    while work:
        v = work.pop()
        if v in seen:
            continue
        seen.add(v)
        if type(v) is int:
            d = fn.defs.get(v)
            if d is not None and d.op == 'phi':
                work.extend(d.ops)
                continue
            if d is not None and d.op == 'select':
                work.extend(d.ops[1:])
                continue
            if d is not None and d.op == 'or':
                work.extend(d.ops)
                continue
            if d is not None and d.op in ('trunc', 'sext', 'zext', 'freeze'):
                work.append(d.ops[0])
                continue
        out.add(v)
    return out


def mode_of(fn, modes):
    """Failure convention of fn, or None."""
    ty = fn.ret
    src = ret_sources(fn)
    if ty in ('i32', 'i64'):
        neg = False
        for v in src:
            if type(v) is tuple and v[0] == 'i' and v[1] < 0:
                neg = True
            elif type(v) is int:
                d = fn.defs.get(v)
                if d is not None and d.op in ('call', 'invoke') and modes(d.callee) == 'neg':
                    neg = True
        if all(type(v) is tuple and v[0] == 'i' and v[1] < 0 for v in src):
            return None      # always negative: a helper for `return error(...)`
        return 'neg' if neg else None
    if ty == 'ptr':
        null = some = False
        for v in src:
            if type(v) is tuple and v[0] in ('null', 'i') and (v[0] == 'null' or v[1] == 0):
                null = True
            else:
                some = True
                if type(v) is int:
                    d = fn.defs.get(v)
                    if d is not None and d.op in ('call', 'invoke') and modes(d.callee) in ('null',):
                        null = True
        return 'null' if null and some else None
    return None


NOF = ('', -1)


class Fail(Prop):
    def __init__(self, modes, own, sites=None):
        self.modes = modes
        self.own = own
        self.reports = {}
        self.n = 0

    def init(self, eng, st):
        st.prop = NOF

    def key(self, st):
        return st.prop

    def call(self, eng, st, i, c, args):
        if c is None:
            return None
        m = self.modes(c)
        if not m or m == 'any' or i.ty == 'void':
            return None
        if st.prop != NOF:
            if st.prop[0] == c:
                st.prop = NOF
            else:
                # one failure at a time: later calls succeed
                v = eng.fresh(st, i.id)
                st.env[i.id] = v
                if m == 'neg':
                    st.con[v] = (0, INF, frozenset())
                elif m in ('zero', 'le0'):
                    st.con[v] = (1, INF, frozenset())
                elif m == 'nz':
                    st.env[i.id] = ('c', 0)
                else:
                    st.con[v] = (-INF, INF, frozenset((0,) if m == 'null' else (-1,)))
                eng.clobber(st, i, c, args)
                return [st]
        self.n += 1
        s2 = st.copy()
        v = eng.fresh(st, i.id)
        st.env[i.id] = v
        v2 = eng.fresh(s2, i.id)
        s2.env[i.id] = v2
        if m == 'neg':
            st.con[v] = (0, INF, frozenset())
            s2.con[v2] = (-INF, -1, frozenset())
        elif m == 'null':
            st.con[v] = (-INF, INF, frozenset((0,)))
            s2.env[i.id] = ('c', 0)
        elif m == 'map':
            st.con[v] = (-INF, INF, frozenset((-1,)))
            s2.env[i.id] = ('c', -1)
        elif m == 'nz':
            st.env[i.id] = ('c', 0)
            s2.con[v2] = (-INF, INF, frozenset((0,)))
        elif m == 'zero':
            st.con[v] = (1, INF, frozenset())
            s2.env[i.id] = ('c', 0)
        elif m == 'le0':
            st.con[v] = (1, INF, frozenset())
            s2.con[v2] = (-INF, 0, frozenset())
        s2.prop = (c, i.id)
        eng.clobber(st, i, c, args)
        eng.clobber(s2, i, c, args)
        return [st, s2]

    def ret(self, eng, st, i, v):
        if st.prop == NOF or v is None:
            return
        lo, hi, ne = eng.rng(st, v)
        ok = False
        if self.own == 'neg' and lo >= 0:
            ok = True
        if self.own == 'null' and (0 in ne or lo > 0 or v[0] in 'ag'):
            ok = True
        if ok:
            c, iid = st.prop
            if (c, iid) not in self.reports:
                self.reports[(c, iid)] = (eng.fn.defs[iid], i, eng.path(st))
