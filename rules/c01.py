"""C01: what the stream decoders read is there: every unchecked access to a byte or bit
stream is covered by what was learnt about its length on every path to it."""
import os, re
import ir, scope, avail, esp
from par import pmap

LEVEL = 'other'
DATA = os.path.join(ir.VERIF, 'data', 'c01_confirmed.txt')
WHY = {
    'aper_*': 'PER encoders run over bit streams they have just filled themselves',
    'decompress lzo_* get_unaligned_* HASH3 compress': 'LZO keeps raw pointers; its margins are arithmetic on them',
    'httpd_parse_idle httpc_parse_idle': 'the header block was delimited by CRLF CRLF before it is cut',
    'http2_conn_construct_hdr_blk http_get_http2_*': 'frames and headers that were validated when they were received or '
    'built by this side',
    'http2_conn_parse_settings': 'the payload is a multiple of the item size, the loop runs that many times',
    'iop_json_lex_number iop_json_lex_enum log_parse_specs': 'the amount comes from strtod or memchr over the same bytes',
    'mp_wah_init_from_data from_data_split_chunk': 'word counts compared with the remaining words through pointers',
    'ps_getuc sb_add_ps_int_fmt ps_copyv': 'length arithmetic (truncation, modulo, scatter) that is not tracked',
    'rjerror_exp': 'reads the first byte only when more than twenty are known to be there',
}


def load():
    A, F = {}, set()
    if os.path.exists(DATA):
        for l in open(DATA):
            w = l.split()
            if w and w[0] == 'ok':
                A[(w[1], w[2], w[3])] = int(w[4])
            elif w and w[0] == 'fn':
                F.add(w[1])
    return A, F


def analyse(ctx):
    mods = ir.load_all(ir.build(ctx.scratch, keep=avail.KEEP))
    fns, seen = [], set()
    for f in scope.roots(mods):
        k = (f.name, f.file, f.line)
        if k in seen:
            continue
        seen.add(k)
        if any(i.callee and re.match(avail.KEEP, i.callee) for i in f.calls()):
            fns.append(f)

    def one(f):
        p = avail.Avail(f)
        try:
            esp.Engine(f, p, max_time=60).run()
        except esp.Limit:
            return None
        out = []
        for (iid, w), (i, _, v, path, fa) in p.reports.items():
            fr = i.frames()
            # the innermost function that is not from a header
            s = [x for x in fr if x[2].lstrip('./').startswith('src/') and not x[2].endswith('.h')] or fr
            if s:
                out.append((s[0][1], w, s[0][2].lstrip('./'), s[0][0], i.where(), path))
            else:
                out.append((f.src, w, f.file, 0, i.where(), path))
        return out, len(p.checked), len(p.ptr)
    src = {f.src for m in mods.values() for f in m.fns.values()}
    return fns, pmap(one, fns), src


def agg(fns, res):
    """(file, function, operation) -> {place: text}"""
    r = {}
    for f, x in zip(fns, res):
        for inner, w, fl, ln, where, path in (x[0] if x else ()):
            r.setdefault((fl, inner, w), {}).setdefault(ln, (f, where, path))
    return r


def run(ctx):
    ctx.rule = ('for every function that works on a byte or bit stream (static callees inlined): ESP simulation keeping, '
                'per stream, lower bounds of what is left (constants, lengths, results of length tests) through the '
                'checked and unchecked stream operations, copies of streams and loops; every unchecked operation (skip, '
                'get, clip, fixed-width read), every direct read through the position of a stream and every copy from '
                'it is covered by such a bound on every path. The bodies of the unchecked operations are checked '
                'against the amounts their callers are held to')
    ctx.assumptions = ['%s: %s' % (k, v) for k, v in WHY.items()] + [
        'confirmed accesses (data/c01_confirmed.txt) were read one by one',
        'the length tests themselves (has, len, done) are taken at their word',
        'distinct streams do not share their position except by copy']
    A, F = load()
    fns, res, src = analyse(ctx)
    fa = {(f, w) for f, _, w in A}
    gone = {(f, w) for f, g, w in A if g not in src}
    for (fl, inner, w), l in sorted(agg(fns, res).items()):
        n = A.get((fl, inner, w), 0)
        if len(l) <= n or (fl, w) in gone:
            continue
        if inner not in F:
            if (fl, w) in fa:
                continue
            l = {k: x for k, x in l.items() if not (x[0].src == inner and x[0].nargs)}
            if not l:
                continue
        for ln, (f, where, path) in sorted(l.items()):
            ctx.violation('%s:%s' % (inner, w), '%s in %s() without knowing that the bytes are there: %s [lines %s]' % (
                {'load': 'direct read', 'copy': 'copy', 'advance': 'advance'}.get(w, w + '()'), inner, where, path))
    lims = [f.name for f, r in zip(fns, res) if r is None]
    ctx.floor('functions_on_streams', len(fns), 250)
    ctx.floor('accesses_checked', sum(r[1] for r in res if r), 600)
    ctx.counts['accesses_by_pointer_not_decided'] = sum(r[2] for r in res if r)
    ctx.counts['confirmed_accesses_met'] = sum(len(l) for l in agg(fns, res).values())
    ctx.counts['not_analysed_state_limit'] = lims


def freeze(ctx):
    fns, res, src = analyse(ctx)
    out = ['# confirmed: ok file function operation lines; then every known function']
    for (fl, inner, w), l in sorted(agg(fns, res).items()):
        out.append('ok %s %s %s %d' % (fl, inner, w, len(l)))
    out += ['fn ' + s for s in sorted(src) if s]
    open(DATA, 'w').write('\n'.join(out) + '\n')
