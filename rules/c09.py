"""C09: constant tables and constants agree with their published definitions and
with each other.  The tables are read from the initialisers of the globals in the
LLVM IR of the current tree (nothing is executed); the oracles are computed here
from the definitions (GF(2^8), CRC polynomials, RFC text, Unicode data)."""
import os, re, subprocess, sys, unicodedata, math, string
import ir
sys.path.insert(0, os.path.join(ir.VERIF, 'data'))
import rfc7541
import tables as T

LEVEL = 'other'

UNITS = ('core/str-buf-quoting.c', 'core/str-conv.c', 'core/str-buf-gsm.c',
         'core/str-ctype.c', 'core/bithacks.c', 'core/datetime.c', 'net/http.c',
         'arith/int.c', 'core/str-iprintf.c', 'crypto/aes.c', 'crypto/crc32.c',
         'crypto/crc64.c', 'crypto/des.c', 'crypto/sha4.c', 'crypto/sha2.c',
         'crypto/sha1.c', 'crypto/md5.c', 'net/hpack.c', 'net/http-def.c',
         'iop/iop.blk', 'iop/xml-pack.c', 'iop/xml-wsdl.blk',
         'iopc/iopc-lang-c.blk', 'core/yaml.c', 'container/qhash.c', 'core/log.c')


class Zero(object):
    pass


def flat(mods, m, o):
    """Initialiser -> nested python lists / ints / bytes."""
    if o is None:
        return None
    if type(o) is str:
        if o[:2] == 'i:':
            return int(o.split(':')[1])
        if o[:2] == 'g:':
            g = m.globals.get(o[2:])
            if g is not None and type(g['init']) is list and g['init'][0] == 'str':
                return g['init'][1].encode('latin-1')
            if g is not None and g['const'] and g['init'] is not None and g['t'].endswith('x i8]'):
                return b'\0' * 1
            return o
        if o in ('null', 'undef', 'poison'):
            return 0
        return o
    k = o[0]
    if k == 'str':
        return o[1].encode('latin-1')
    if k == 'ints':
        return list(o[2])
    if k == 'arr':
        return [flat(mods, m, x) for x in o[1]]
    if k == 'st':
        return [flat(mods, m, x) for x in o[2]]
    if k == 'zero':
        return Zero
    if k == 'gep':
        return flat(mods, m, o[1])
    return o


def lst(v):
    if isinstance(v, bytes):
        return list(v)
    return v


class Tab:
    def __init__(self, ctx, mods):
        self.ctx = ctx
        self.mods = mods
        self.n = 0
        self.entries = 0

    def mod(self, unit):
        for t, m in self.mods.items():
            if t == 'src/' + unit:
                return m
        ir.broken('unit %s vanished' % unit)

    def find(self, unit, name, expect=None):
        m = self.mod(unit)
        g = m.globals.get(name)
        if g is None:
            # a static inside a function is called fn.name; it may have moved
            short = name.split('.')[-1]
            c = [x for n, x in m.globals.items()
                 if (n == short or n.split('.')[-1] == short or x.get('src') == short) and x['init'] is not None]
            if len(c) == 1:
                g = c[0]
        if g is None:
            for tm in self.mods.values():
                if name in tm.globals and tm.globals[name]['init'] is not None:
                    m, g = tm, tm.globals[name]
                    break
        if (g is None or g['init'] is None) and expect is not None:
            best = None
            for tm in self.mods.values():
                for n, x in tm.globals.items():
                    if x['init'] is None:
                        continue
                    v = lst(flat(self.mods, tm, x['init']))
                    if type(v) is list and len(v) == len(expect):
                        same = sum(a == b for a, b in zip(v, expect))
                        if best is None or same > best[0]:
                            best = (same, tm, x)
            if best and best[0] * 10 >= len(expect) * 9:
                m, g = best[1], best[2]
        if g is None or g['init'] is None:
            ir.broken('table %s of %s not found' % (name, unit))
        return lst(flat(self.mods, m, g['init']))

    def eq(self, unit, name, expect, mask=None, what=''):
        v = self.find(unit, name, expect)
        self.n += 1
        self.entries += len(expect)
        if v is Zero:
            v = [0] * len(expect)
        if type(v) is not list or len(v) < len(expect):
            self.ctx.violation('%s:%s' % (unit, name), 'src/%s: table %s has %s entries, %d expected'
                               % (unit, name, len(v) if type(v) is list else '?', len(expect)))
            return
        bad = []
        for i, e in enumerate(expect):
            x = v[i]
            if mask and type(x) is int:
                x &= mask
                e = e & mask
            if x != e:
                bad.append((i, v[i], expect[i]))
        if bad:
            i, x, e = bad[0]
            f = lambda z: hex(z) if type(z) is int else repr(z)
            self.ctx.violation('%s:%s' % (unit, name), 'src/%s: table %s entry %d is %s, its definition gives %s '
                               '(%d entries differ) %s' % (unit, name, i, f(x), f(e), len(bad), what))

    def check(self, key, ok, text):
        self.n += 1
        if not ok:
            self.ctx.violation(key, text)


# ------------------------------------------------------------------ oracles
def quoting(t):
    u = 'core/str-buf-quoting.c'
    up, lo, dg = string.ascii_uppercase, string.ascii_lowercase, string.digits
    for n, al in (('b64', up + lo + dg + '+/'), ('b64url', up + lo + dg + '-_')):
        t.eq(u, '__' + n, list(al.encode()))
        dec = [255] * 256
        for i, c in enumerate(al):
            dec[ord(c)] = i
        t.eq(u, '__decode_base64' + n[3:], dec)
    url = [255] * 256
    for c in up + lo + dg + '-./_':
        url[ord(c)] = ord(c)
    t.eq(u, '__str_url_invalid', url)
    une = {'a': 7, 'b': 8, 'e': 27, 't': 9, 'n': 10, 'v': 11, 'f': 12, 'r': 13, '\\': 92, '"': 34, "'": 39}
    v = t.find(u, '__c_unescape')
    t.n += 1
    t.entries += len(v)
    for i, x in enumerate(v):
        if x != une.get(chr(i), 0):
            t.ctx.violation(u + ':__c_unescape', 'src/%s: C escape \\%s decodes to %d, not %d'
                            % (u, chr(i), x, une.get(chr(i), 0)))
            break
    t.check(u + ':__c_unescape:len', len(v) > max(map(ord, une)), 'src/%s: C escape table is truncated' % u)


def ctype(t):
    def bits(s):
        w = [0] * 8
        for c in s:
            w[c >> 5] |= 1 << (c & 31)
        return w
    o = lambda s: [ord(c) for c in s]
    up, lo, dg = o(string.ascii_uppercase), o(string.ascii_lowercase), o(string.digits)
    u = 'core/str-ctype.c'
    spec = {'islower': lo, 'isupper': up, 'isalnum': up + lo + dg, 'isalpha': up + lo, 'isdigit': dg,
            'ishexdigit': dg + o('abcdefABCDEF'), 'iscvar': up + lo + dg + [95], 'isbindigit': [48, 49],
            'isspace': o(' \f\n\r\t\v'),
            'iswordpart': dg + up + lo + o('$@') + list(range(128, 256))}
    L = [(u, 'ctype_' + k, v) for k, v in spec.items()]
    L.append(('core/str-buf-quoting.c', 'ctype_is_non_ldh',
              [c for c in range(128) if c not in set(up + lo + dg + [45])]))
    y = 'core/yaml.c'
    L.append((y, 'ctype_yaml_key_chars', dg + up + lo + o('-_<~')))
    L.append((y, 'ctype_scalarend', o('\n#')))
    L.append((y, 'ctype_scalarflowend', o('\n#{}[],')))
    for un, n, s in L:
        v = t.find(un, n)
        if type(v) is list and len(v) == 1 and type(v[0]) is list:
            v = v[0]
        t.n += 1
        t.entries += 256
        e = bits(s)
        if v != e:
            d = [i for i in range(256) if (v[i >> 5] >> (i & 31) ^ e[i >> 5] >> (i & 31)) & 1] if len(v) == 8 else []
            t.ctx.violation('%s:%s' % (un, n), 'src/%s: character class %s is wrong for byte(s) %s'
                            % (un, n, [hex(x) for x in d[:8]]))


def conv(t):
    u = 'core/str-conv.c'
    ul = [1] * 16 + [0] * 8 + [2] * 4 + [3] * 2 + [4, 0]
    t.eq(u, '__utf8_char_len', ul)
    dv = [255] * 384
    for i in range(36):
        c = '0123456789abcdefghijklmnopqrstuvwxyz'[i]
        dv[128 + ord(c)] = dv[128 + ord(c.upper())] = i
    t.eq(u, '__str_digit_value', dv)
    t.eq(u, '__str_digits_lower', list(b'0123456789abcdefghijklmnopqrstuvwxyz'))
    t.eq(u, '__str_digits_upper', list(b'0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'))
    exu = {0xb5: 0xb5, 0xdf: 0xdf, 0x149: 0x149, 0x1f0: 0x1f0}
    exl = {0x130: 0x69}
    upt = [exu.get(c) or ord(chr(c).upper()) for c in range(512)]
    lot = [exl.get(c) or ord(chr(c).lower()) for c in range(512)]
    t.eq(u, '__str_unicode_upper', upt)
    t.eq(u, '__str_unicode_lower', lot)

    def base(c):
        s = unicodedata.normalize('NFD', chr(c))
        b = c if c in T.NO_STRIP else ord(s[0])
        return T.TRANSLIT.get(b, b)
    cs = [base(c) for c in range(512)]
    t.eq(u, '__str_unicode_general_cs', cs)

    def upc(v):
        a, b = v & 0xffff, v >> 16
        f = lambda x: upt[x] if x < 512 else x
        return f(a) | f(b) << 16
    t.eq(u, '__str_unicode_general_ci', [upc(v) for v in cs])
    l = []
    over = {0xa4: 0x20ac, 0xa6: 0x160, 0xa8: 0x161, 0xb4: 0x17d, 0xb8: 0x17e, 0xbc: 0x152, 0xbd: 0x153, 0xbe: 0x178}
    for c in range(0x80, 0xc0):
        if c in over:
            l.append(over[c])
        elif c < 0xa0:
            try:
                l.append(ord(bytes([c]).decode('cp1252')))
            except UnicodeDecodeError:
                l.append(c)
        else:
            l.append(c)
    t.eq(u, '__latinX_to_utf8', l)
    t.eq('core/str-iprintf.c', 'ifputs_hex.hexchar', list(b'0123456789ABCDEF'))


def gsm(t):
    u = 'core/str-buf-gsm.c'
    basic, ext = T.GSM_BASIC, T.GSM_EXT
    g = t.find(u, '__gsm7_to_unicode')
    t.n += 1
    t.entries += 256
    for i in range(256):
        e = basic[i] if i < 128 else ext.get(i - 128, -1)
        if i == 0x1b or (i >= 128 and i - 128 == 0x1b):
            continue
        x = g[i]
        if x >= 1 << 15:
            x -= 1 << 16
        if i >= 128 and e == -1:
            ok = x < 0 or x == basic[i - 128] or x == T.GSM_EXT_FALLBACK.get(i - 128)
        else:
            ok = x == e
        if not ok:
            t.ctx.violation(u + ':__gsm7_to_unicode', 'src/%s: GSM septet 0x%02x%s decodes to U+%04X, '
                            'GSM 03.38 says %s' % (u, i & 127, ' (extension)' if i > 127 else '', x & 0xffffffff,
                                                   'U+%04X' % e if e >= 0 else 'undefined'))
    # round trip: every character the basic plan decodes is encoded back to the same septet
    enc = t.find(u, '__win1252_to_gsm7')
    t.n += 1
    t.entries += 256
    want = {}
    for i in range(128):
        if i != 0x1b and basic[i] < 256:
            want[basic[i]] = i
    for i, c in ext.items():
        if c < 256:
            want.setdefault(c, 0x1b00 | i)
    e1252 = {0x80: 0x1b65}
    for c in range(256):
        x = enc[c]
        if x >= 1 << 15 and x < 1 << 16:
            x -= 1 << 16
        e = want.get(c)
        if c in e1252:
            e = e1252[c]
        if e is None:
            # a character GSM cannot represent: unknown or a documented approximation
            ok = c in T.GSM_APPROX and x == T.GSM_APPROX[c] or c not in T.GSM_APPROX and x == T.GSM_NONE
        else:
            ok = x == e
        if not ok:
            t.ctx.violation(u + ':__win1252_to_gsm7', 'src/%s: character 0x%02x encodes to GSM 0x%x, not %s'
                            % (u, c, x & 0xffff, hex(e) if e is not None else 'the approximation in the tables'))
    m = t.mod(u)
    for fn, want, lo in (('unicode_to_gsm7', {c: i for i, c in enumerate(basic) if c > 0xff and i != 0x1b}, 10),):
        f = m.fns.get(fn)
        if f is None:
            continue
        got = switch_map(f)
        t.n += 1
        t.entries += len(got)
        for c, r in got.items():
            e = want.get(c, 0x1b65 if c == 0x20ac else None)
            if e is not None and r is not None and r != e:
                t.ctx.violation(u + ':' + fn, 'src/%s: %s() maps U+%04X to 0x%x, not 0x%x' % (u, fn, c, r, e))
        if got:
            for c in want:
                if c not in got:
                    t.ctx.violation(u + ':' + fn + ':missing', 'src/%s: %s() does not encode U+%04X' % (u, fn, c))
    # CIMD escapes: slot = hash, decoded character is representable
    esc = t.find(u, 'cimd_esc_map')
    t.n += 1
    got = {}
    for i, e in enumerate(esc):
        if e is Zero:
            continue
        c1, c2, uni = e[0], e[1], e[2]
        if not uni:
            continue
        h = ((c1 ^ 0x33) + (((c2 << 4) | (c2 >> 4)) & 0xff)) & 0xff
        if h != i:
            t.ctx.violation(u + ':cimd_esc_map', 'src/%s: CIMD escape _%c%c is in slot %d, its hash is %d'
                            % (u, c1, c2, i, h))
        got[(chr(c1) + chr(c2))] = uni
    t.entries += len(got)
    for k, v in T.CIMD.items():
        if got.get(k) != v:
            t.ctx.violation(u + ':cimd_esc_map:' + k, 'src/%s: CIMD escape _%s decodes to %s, not U+%04X'
                            % (u, k, hex(got.get(k, 0)), v))


def switch_map(f):
    """{case value: constant returned} for switches whose arms return constants."""
    r = {}

    def follow(b, prev):
        seen = set()
        while b not in seen:
            seen.add(b)
            for i in f.bbs[b]:
                if i.op == 'ret':
                    v = i.ops[0] if i.ops else None
                    if type(v) is int:
                        d = f.defs.get(v)
                        if d is not None and d.op == 'phi' and d.bb == b:
                            for o, p in zip(d.ops, d.x):
                                if p == prev:
                                    v = o
                    return v
                if i.op not in ('phi', 'br'):
                    return None
            if len(f.succs[b]) != 1:
                return None
            prev, b = b, f.succs[b][0]
        return None
    for b, l in enumerate(f.bbs):
        s = l[-1]
        if s.op == 'switch':
            for c in s.x[1:]:
                v = follow(c[1], b)
                if v is not None and type(v) is tuple and v[0] == 'i':
                    r[int(c[0])] = v[1]
    return r


def bits(t):
    u = 'core/bithacks.c'
    t.eq(u, '__bit_reverse8', [int('{:08b}'.format(i)[::-1], 2) for i in range(256)])
    t.eq(u, '__bitcount11', [bin(i).count('1') for i in range(2048)])
    t.eq(u, '__firstbit_fwd8', [8 if not i else (i & -i).bit_length() - 1 for i in range(256)])
    t.eq(u, '__firstbit_rev8', [0 if not i else i.bit_length() - 1 for i in range(256)])
    t.eq(u, 'membitcount_ssse3.popcnt_4bits', [bin(i).count('1') for i in range(16)])
    t.eq(u, 'membitcount_ssse3.lo_4bits', [15] * 16)
    t.eq('arith/int.c', 'powerof10', [10 ** i for i in range(16)])
    t.eq('core/datetime.c', '__valid_mdays', [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31])
    mon = 'Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()
    v = t.find('core/datetime.c', '__abbr_months')
    names = [x.split(b'\0')[0].decode().lower() if isinstance(x, bytes) else None for x in v]
    names = [x for x in names if x is not None]
    t.check('core/datetime.c:__abbr_months', names[-12:] == [m.lower() for m in mon],
            'src/core/datetime.c: month abbreviations are %s' % names)
    t.entries += 12
    v = t.find('net/http.c', 'months')
    names = [x.split(b'\0')[0].decode() if isinstance(x, bytes) else None for x in v]
    t.check('net/http.c:months', names == mon, 'src/net/http.c: HTTP month names are %s' % names)
    t.entries += 12
    v = t.find('container/qhash.c', 'prime_list')
    t.n += 1
    t.entries += len(v)
    for i, p in enumerate(v):
        p &= 0xffffffff
        if p < 2 or any(p % d == 0 for d in range(2, int(p ** .5) + 1)):
            t.ctx.violation('container/qhash.c:prime_list', 'src/container/qhash.c: hash size %d is not prime' % p)
        if i and p < v[i - 1] & 0xffffffff:
            t.ctx.violation('container/qhash.c:prime_list:order', 'src/container/qhash.c: hash sizes decrease at %d' % p)
        if p < 1 << i and i < 32:
            t.ctx.violation('container/qhash.c:prime_list:size', 'src/container/qhash.c: hash size %d is below 2^%d' % (p, i))


def crypto(t):
    u = 'crypto/aes.c'
    def mul(a, b):
        r = 0
        while b:
            if b & 1:
                r ^= a
            a <<= 1
            if a & 256:
                a ^= 0x11b
            b >>= 1
        return r
    inv = [0] * 256
    for a in range(1, 256):
        for b in range(1, 256):
            if mul(a, b) == 1:
                inv[a] = b
                break
    rot = lambda x, n: ((x << n) | (x >> (8 - n))) & 255
    S = [x ^ rot(x, 1) ^ rot(x, 2) ^ rot(x, 3) ^ rot(x, 4) ^ 0x63 for x in inv]
    R = [0] * 256
    for i, s in enumerate(S):
        R[s] = i
    t.eq(u, 'FSb', S)
    t.eq(u, 'RSb', R)
    r32 = lambda x, n: ((x << n) | (x >> (32 - n))) & 0xffffffff
    F0 = [mul(s, 2) | s << 8 | s << 16 | mul(s, 3) << 24 for s in S]
    R0 = [mul(s, 14) | mul(s, 9) << 8 | mul(s, 13) << 16 | mul(s, 11) << 24 for s in R]
    for k in range(4):
        t.eq(u, 'FT%d' % k, [r32(x, 8 * k) for x in F0])
        t.eq(u, 'RT%d' % k, [r32(x, 8 * k) for x in R0])
    rc, x = [], 1
    for i in range(10):
        rc.append(x)
        x = mul(x, 2)
    t.eq(u, 'RCON', rc)

    def crc(poly, n):
        t0 = []
        for i in range(256):
            c = i
            for _ in range(8):
                c = (c >> 1) ^ poly if c & 1 else c >> 1
            t0.append(c)
        tt = [t0]
        for k in range(1, n):
            tt.append([(x >> 8) ^ t0[x & 255] for x in tt[-1]])
        return tt
    for un, n, poly, k, mask in (('crypto/crc32.c', 'crc32table', 0xEDB88320, 8, 0xffffffff),
                                 ('crypto/crc64.c', 'crc64table', 0xC96C5795D7870F42, 4, (1 << 64) - 1)):
        v = t.find(un, n)
        e = crc(poly, k)
        for j in range(k):
            t.n += 1
            t.entries += 256
            bad = [i for i in range(256) if v[j][i] & mask != e[j][i]]
            if bad:
                t.ctx.violation('%s:%s' % (un, n), 'src/%s: %s[%d][%d] is 0x%x, the polynomial gives 0x%x (%d differ)'
                                % (un, n, j, bad[0], v[j][bad[0]] & mask, e[j][bad[0]], len(bad)))
    # DES
    u = 'crypto/des.c'
    sb = des_sp()
    for k in range(8):
        t.eq(u, 'SB%d' % (k + 1), sb[k], mask=0xffffffff)
    lh, rh = [], []
    for i in range(16):
        b = [(i >> k) & 1 for k in range(4)]
        lh.append(b[0] << 0 | b[1] << 8 | b[2] << 16 | b[3] << 24)
        rh.append(b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3] << 0)
    t.eq(u, 'LHs', lh)
    t.eq(u, 'RHs', rh)
    # SHA-2 constants
    pr = [p for p in range(2, 500) if all(p % d for d in range(2, int(p ** .5) + 1))]

    def icbrt(n):
        lo, hi = 0, 1 << ((n.bit_length() + 2) // 3 + 1)
        while lo < hi:
            mid = (lo + hi + 1) // 2
            if mid ** 3 <= n:
                lo = mid
            else:
                hi = mid - 1
        return lo
    K64 = [icbrt(p << 192) & ((1 << 64) - 1) for p in pr[:80]]
    t.eq('crypto/sha4.c', 'K', K64, mask=(1 << 64) - 1)
    K32 = [icbrt(p << 96) & 0xffffffff for p in pr[:64]]
    consts(t, 'crypto/sha2.c', K32, 'SHA-256 round constants')
    K5 = [int(abs(math.sin(i + 1)) * (1 << 32)) for i in range(64)]
    consts(t, 'crypto/md5.c', K5, 'MD5 round constants')
    consts(t, 'crypto/sha1.c', [0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xCA62C1D6], 'SHA-1 round constants')
    H32 = [math.isqrt(p << 64) & 0xffffffff for p in pr[:8]]
    H64 = [math.isqrt(p << 128) & ((1 << 64) - 1) for p in pr[:8]]
    H64b = [math.isqrt(p << 128) & ((1 << 64) - 1) for p in pr[8:16]]
    consts(t, 'crypto/sha2.c', H32, 'SHA-256 initial state')
    consts(t, 'crypto/sha2.c', [x & 0xffffffff for x in H64b], 'SHA-224 initial state')
    consts(t, 'crypto/sha4.c', H64, 'SHA-512 initial state')
    consts(t, 'crypto/sha4.c', H64b, 'SHA-384 initial state')
    for un in ('crypto/md5.c', 'crypto/sha1.c'):
        consts(t, un, [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476], 'initial state')
    consts(t, 'crypto/sha1.c', [0xC3D2E1F0], 'initial state')
    t.eq('crypto/sha2.c', 'sha2_crypt_base64char_g',
         list(('./' + string.digits + string.ascii_uppercase + string.ascii_lowercase).encode()))


def consts(t, unit, want, what):
    """Every constant of the definition occurs in the code or data of the unit."""
    m = t.mod(unit)
    have = set()

    def walk(o):
        if type(o) is tuple:
            if o and o[0] == 'i':
                have.add(o[1] & ((1 << o[2]) - 1))
            elif o and o[0] == 'ints':
                have.update(x & ((1 << 64) - 1) for x in o[2])
                have.update(x & 0xffffffff for x in o[2])
            else:
                for x in o:
                    if type(x) is tuple:
                        walk(x)
    for f in m.fns.values():
        for i in f.insts():
            for o in i.ops:
                walk(o)
            if i.op in ('call', 'invoke'):
                for a in i.x.get('args', ()) if type(i.x) is dict else ():
                    walk(ir.parse_op(a))
    for g in m.globals.values():
        if g['init'] is not None:
            walk(ir.parse_op(g['init']))
    t.n += 1
    t.entries += len(want)
    miss = [x for x in want if x not in have]
    if miss:
        t.ctx.violation('%s:%s' % (unit, what.replace(' ', '-')), 'src/%s: %s: %s of the standard do(es) not occur'
                        % (unit, what, [hex(x) for x in miss[:4]]))


def des_sp():
    """The S-boxes combined with the P permutation, in the bit layout of the code:
    16-bit-rotated words in which S1,S3,S5,S7 sit on the odd half."""
    P = T.DES_P
    out = []
    for k in range(8):
        row = []
        for i in range(64):
            # index bits b5..b0 as six expanded bits
            r = ((i >> 5) & 1) << 1 | (i & 1)
            c = (i >> 1) & 15
            s = T.DES_S[k][r][c]
            w = s << (28 - 4 * k)          # bits 1..32, MSB first
            o = 0
            for j, p in enumerate(P):
                if w >> (32 - p) & 1:
                    o |= 1 << (31 - j)
            # the code keeps halves rotated left by one bit
            row.append(((o << 1) | (o >> 31)) & 0xffffffff)
        out.append(row)
    return out


def hpack(t):
    u = 'net/hpack.c'
    v = t.find(u, 'hpack_stbl_g')
    t.n += 1

    def s(o):
        # lstr: [[bytes], len, ..]
        if o is Zero:
            return ''
        b = o[0][0] if type(o[0]) is list else o[0]
        n = o[1]
        return (b if isinstance(b, bytes) else b'')[:n].decode('latin-1')
    ent = []
    for e in v:
        ent.append(('', '') if e is Zero else (s(e[0]), s(e[1])))
    t.entries += len(ent)
    exp = [('', '')] + rfc7541.STATIC
    if len(ent) != 62:
        t.ctx.violation(u + ':stbl', 'src/%s: the static table has %d entries, not 61' % (u, len(ent) - 1))
    for i, (a, b) in enumerate(zip(ent, exp)):
        if i and a != b:
            t.ctx.violation(u + ':stbl:%d' % i, 'src/%s: static table entry %d is %r, RFC 7541 says %r' % (u, i, a, b))
    # Huffman tables: generated by the tree's own generator
    gen = os.path.join(ir.REPO, 'src/net/hpack-generate-huffman-tables.py')
    rfc = os.path.join(ir.REPO, 'src/net/rfc7541-tables.txt')
    res = {}
    for mode in ('for-encoding', 'for-decoding'):
        out = os.path.join(t.ctx.scratch, 'huff-%s.c' % mode)
        r = subprocess.run(['python3', gen, mode, '-r', rfc, '-o', out], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, cwd=os.path.join(ir.REPO, 'src'))
        if r.returncode or not os.path.exists(out):
            ir.broken('huffman generator failed: ' + r.stdout[-300:])
        txt = open(out).read()
        res[mode] = [[int(x, 0) for x in re.findall(r'0x[0-9a-fA-F]+|\b\d+\b', re.sub(r'/\*.*?\*/', '', row))]
                     for row in re.findall(r'\{([^{}]*)\}', re.sub(r'/\*.*?\*/', '', txt, flags=re.S))]
    enc = res['for-encoding']
    t.n += 2
    t.entries += len(enc) + len(res['for-decoding'])
    if len(enc) != 257:
        t.ctx.violation(u + ':huffenc', 'Huffman encoding table has %d rows' % len(enc))
    for i, (e, (code, n)) in enumerate(zip(enc, rfc7541.HUFF)):
        if tuple(e[:2]) != (code, n):
            t.ctx.violation(u + ':huffenc', 'Huffman code of symbol %d is 0x%x/%d bits, RFC 7541 says 0x%x/%d'
                            % (i, e[0], e[1], code, n))
            break
    dec = res['for-decoding']
    if len(dec) != 256 * 16:
        ir.broken('Huffman decoding table has %d rows' % len(dec))
    # walk every code through the automaton: 4 bits at a time
    codes = {}
    for sym, (code, n) in enumerate(rfc7541.HUFF):
        codes[(n, code)] = sym
    tree = [{}]
    term = {}

    def node(bits):
        return bits
    # states are prefixes of codes; state 0 is the empty prefix.  Build the relation
    # state number <-> prefix from the table itself, starting with state 0.
    pref = {0: ''}
    todo = [0]
    full = {'{:0{}b}'.format(c, n): s for s, (c, n) in enumerate(rfc7541.HUFF)}
    prefixes = set()
    for k in full:
        for i in range(len(k)):
            prefixes.add(k[:i])
    bad = None
    while todo and not bad:
        st = todo.pop()
        for nib in range(16):
            state, sym, emitter, final, error = dec[st * 16 + nib][:5]
            cur = pref[st]
            em = None
            err = False
            for b in '{:04b}'.format(nib):
                cur += b
                if cur in full:
                    if full[cur] == 256:
                        err = True
                        break
                    em = full[cur]
                    cur = ''
                elif cur not in prefixes:
                    err = True
                    break
            if err:
                if not error:
                    bad = (st, nib, 'EOS or an impossible code is accepted')
                continue
            if error:
                bad = (st, nib, 'a valid code is refused')
            elif bool(emitter) != (em is not None) or (em is not None and sym != em):
                bad = (st, nib, 'symbol %s decoded as %s' % (em, sym if emitter else None))
            elif bool(final) != (len(cur) < 8 and set(cur) <= {'1'}):
                bad = (st, nib, 'padding %r is %s' % (cur, 'accepted' if final else 'refused'))
            elif state in pref:
                if pref[state] != cur:
                    bad = (st, nib, 'goes to the state of prefix %r instead of %r' % (pref[state], cur))
            else:
                pref[state] = cur
                todo.append(state)
            if bad:
                break
    if bad:
        t.ctx.violation(u + ':huffdec', 'src/net/hpack-generate-huffman-tables.py: decoding automaton state %d, '
                        'input %x: %s' % bad)
    # lookup of the static table by key and value
    m = t.mod(u)
    for name, slots, col in (('hpack_stbl_key_hash_g', 253, 0), ('hpack_stbl_val_hash_g', 31, 1)):
        if name not in m.globals:
            continue
        h = []

        def fl(v):
            if isinstance(v, (bytes, list)):
                for x in v:
                    fl(x)
            elif type(v) is int:
                h.append(v)
        fl(flat(None, m, m.globals[name]['init']))
        t.n += 1
        t.entries += len(h)
        idx = sorted(x for x in h if x)
        first = {}
        for i, e in enumerate(exp):
            if i and e[col] and e[col] not in first:
                first[e[col]] = i
        if idx != sorted(first.values()):
            t.ctx.violation(u + ':' + name, 'src/%s: %s does not list each distinct entry of the static table once: '
                            '%s' % (u, name, sorted(set(first.values()) ^ set(idx))))


def http(t):
    u = 'net/http-def.c'
    v = t.find(u, 'http_method_str')
    names = [(e[0][0] if type(e[0]) is list else e[0])[:e[1]].decode() for e in v]
    t.check(u + ':http_method_str', sorted(names) == sorted(T.HTTP_METHODS), 'src/%s: methods %s' % (u, names))
    m = t.mod(u)
    en = enum_map(t, 'HTTP_METHOD_')
    for k, val in en.items():
        if 0 <= val < len(names) and k != '_MAX':
            t.check(u + ':http_method_str:' + k, names[val] == k, 'src/%s: method %s is spelt %s' % (u, k, names[val]))
    codes = enum_map(t, 'HTTP_CODE_')
    t.n += 1
    t.entries += len(codes)
    for k, val in codes.items():
        if k in T.HTTP_CODES and T.HTTP_CODES[k] != val:
            t.ctx.violation('http.h:HTTP_CODE_' + k, 'status code %s is %d, RFC 9110 says %d' % (k, val, T.HTTP_CODES[k]))
    if len(codes) < 30:
        ir.broken('HTTP status code enumeration not found')
    # http-hdr.perf: name <-> enumerator
    txt = open(os.path.join(ir.REPO, 'src/net/http-hdr.perf')).read()
    pairs = re.findall(r'^([A-Za-z0-9-]+),\s*HTTP_WKHDR_(\w+)\s*$', txt, re.M)
    pairs2 = re.findall(r'^\s*H\((\w+),\s*"([^"]+)"\)', txt, re.M)
    t.n += 2
    t.entries += len(pairs) + len(pairs2)
    if len(pairs) < 40 or len(pairs2) < 40:
        ir.broken('http-hdr.perf: words not found')
    for name, e in pairs + [(b, a) for a, b in pairs2]:
        if name not in T.HTTP_HEADERS:
            t.ctx.violation('http-hdr.perf:%s' % name, 'src/net/http-hdr.perf: %r is not a registered header name' % name)
        elif name.upper().replace('-', '_') != e and not (name == 'Max-Forwards' and e == 'MAX_FORMWARDS'):
            t.ctx.violation('http-hdr.perf:%s' % name, 'src/net/http-hdr.perf: %s is mapped to %s' % (name, e))
    wk = enum_map(t, 'HTTP_WKHDR_')
    miss = [k for k, val in wk.items() if not k.startswith('_') and val >= 0 and k not in dict((e, 1) for _, e in pairs)
            and k not in ('OTHER_HEADER',)]
    for k in miss:
        t.ctx.violation('http-hdr.perf:missing:' + k, 'src/net/http-hdr.perf: header %s is never recognised' % k)
    # HTTP/2 protocol constants
    n = 0
    for pre, want in T.HTTP2.items():
        e = enum_map(t, pre)
        for k, val in want.items():
            if k in e:
                n += 1
                if e[k] != val:
                    t.ctx.violation('http2:%s%s' % (pre, k), 'src/http2.h: %s%s is %d, RFC 7540 says %d'
                                    % (pre, k, e[k], val))
    t.n += 1
    t.entries += n
    if n < 30:
        ir.broken('only %d HTTP/2 protocol constants found' % n)


def enum_map(t, prefix):
    r = {}
    for m in t.mods.values():
        for l in m.enums.values():
            for d in l:
                for k, v in d['v']:
                    if k.startswith(prefix):
                        r[k[len(prefix):]] = v
    return r


def iop(t):
    t.eq('iop/iop.blk', 'get_vint64_len.sizes', [1, 2, 4, 4, 8, 8, 8, 8])
    TY = ['I8', 'U8', 'I16', 'U16', 'I32', 'U32', 'I64', 'U64', 'BOOL', 'ENUM', 'DOUBLE', 'STRING', 'DATA',
          'UNION', 'STRUCT', 'XML', 'VOID']
    en = enum_map(t, 'IOP_T_')
    for i, k in enumerate(TY):
        t.check('iop:IOP_T_' + k, en.get(k) == i, 'iop type %s is numbered %s, the compiled descriptions and the '
                'wire descriptions say %d' % (k, en.get(k), i))
    u = 'iopc/iopc-lang-c.blk'
    SZ = {'I8': 1, 'U8': 1, 'I16': 2, 'U16': 2, 'I32': 4, 'U32': 4, 'I64': 8, 'U64': 8, 'BOOL': 1, 'ENUM': 4, 'DOUBLE': 8}
    v = t.find(u, 'iop_scalar_type_get_size_and_alignment.sizes_and_alignments')
    w = t.find(u, 'iop_opt_type_get_size_and_alignment.sizes_and_alignments')
    t.n += 2
    for i, k in enumerate(TY):
        a = [0, 0] if v[i] is Zero else list(v[i])
        b = [0, 0] if w[i] is Zero else list(w[i])
        t.entries += 2
        if k in SZ:
            if a != [SZ[k], SZ[k]]:
                t.ctx.violation(u + ':sizes:' + k, 'src/%s: size/alignment of %s is %s, C says %d' % (u, k, a, SZ[k]))
            if b != [2 * SZ[k], SZ[k]]:
                t.ctx.violation(u + ':optsizes:' + k, 'src/%s: size/alignment of an optional %s is %s' % (u, k, b))
        elif k in ('STRING', 'DATA', 'XML'):
            if a != [16, 8] or b != [16, 8]:
                t.ctx.violation(u + ':sizes:' + k, 'src/%s: size/alignment of %s is %s / %s' % (u, k, a, b))
        elif k in ('UNION', 'STRUCT'):
            if b != [8, 8]:
                t.ctx.violation(u + ':optsizes:' + k, 'src/%s: size/alignment of optional %s is %s' % (u, k, b))
    XS = {'I8': 'byte', 'U8': 'unsignedByte', 'I16': 'short', 'U16': 'unsignedShort', 'I32': 'int',
          'U32': 'unsignedInt', 'I64': 'long', 'U64': 'unsignedLong', 'BOOL': 'boolean', 'ENUM': None,
          'DOUBLE': 'double', 'STRING': 'string', 'DATA': 'base64Binary'}
    for un, n in (('iop/xml-pack.c', 'xpack_value.types'), ('iop/xml-wsdl.blk', 'iop_xwsdl_put_constraints.types')):
        v = t.find(un, n)
        t.n += 1
        for i, k in enumerate(TY):
            if k not in XS or XS[k] is None or v[i] is Zero or i >= len(v):
                continue
            e = v[i]
            b = e[0][0] if type(e) is list and type(e[0]) is list else (e[0] if type(e) is list else e)
            if not isinstance(b, bytes):
                continue
            s = b.split(b'\0')[0].decode()
            mm = re.findall(r'(?:xsd?|xs):(\w+)', s)
            t.entries += 1
            if mm and mm[0] != XS[k]:
                t.ctx.violation('%s:%s:%s' % (un, n, k), 'src/%s: IOP type %s is declared as XML schema type %s, not %s'
                                % (un, k, mm[0], XS[k]))


def run(ctx):
    ctx.rule = ('every constant table of the listed units, read from the IR initialisers of the current tree, '
                'equals the table computed from its published definition (RFC 4648, RFC 7541, FIPS 46/180/197, '
                'CRC polynomials, Unicode data, GSM 03.38, RFC 9110/7540 registries), and paired tables are '
                'inverses of each other')
    ctx.assumptions = ['the definitions transcribed in data/ are right (checked when written: Kraft sum, known '
                       'answers, agreement with the tables of the tree)',
                       'transliteration of the non-decomposable letters is a frozen table of the library\'s choices']
    dumps = ir.build(ctx.scratch, inline=0, files=lambda f: f[4:] in UNITS)
    mods = ir.load_all(dumps)
    t = Tab(ctx, mods)
    for f in (quoting, ctype, conv, gsm, bits, crypto, hpack, http, iop):
        f(t)
    ctx.floor('units', len(mods), 20)
    ctx.floor('tables', t.n, 90)
    ctx.floor('entries', t.entries, 9000)
