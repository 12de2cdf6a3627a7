"""C10: HTTP traffic that breaks the protocol is refused."""
import re
import ginv

LEVEL = 'other'
FILES = re.compile(r'^src/net/(http|hpack|httptokens)')
FAILCALL = r'^(http2_conn_send_rst_stream|httpd_reject_.*)$'
FLOOR = (60, 150)
HEADERS = re.compile(r'^src/net/http')


def _drop(f):
    return not (FILES.search(f) or HEADERS.search(f))


def run(ctx):
    ctx.rule = ginv.ROBUST + '. HTTP/1 and HTTP/2 parsers. Every guard of the reviewed inventory (data/guards_c10.txt) is still there: not removed, not moved to a looser bound, not made to depend on a further condition'
    ctx.assumptions = ['the reviewed inventory is what the property asks for; what a refusal does to a half-built result is '
                       'the business of other properties',
                       'tests of bytes in local buffers and of values merged from several sources are not compared']
    ginv.run(ctx, lambda f: FILES.search(f), FLOOR, failcall=FAILCALL, drop=_drop)


def freeze(ctx):
    ginv.freeze(ctx, lambda f: FILES.search(f), failcall=FAILCALL, drop=_drop)
