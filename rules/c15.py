"""C15: malformed texts and files are refused."""
import re
import ginv

LEVEL = 'other'
FILES = re.compile(r'^src/core/(yaml|xmlr|file-bin|qps|qpage|parseopt|datetime|str-conv|str-num|str-l|str-path|str-stream|conf|cfgparser|licence|property|log|unix|wah|qlzo|arith|ic)|^src/net/(addr|socket)|^src/tools/yaml')
FAILCALL = None
FLOOR = (210, 700)
HEADERS = re.compile(r'^src/core/(?!str-buf-quoting)|^src/net/|lib-common/core/str-(conv|l|num)|lib-common/xmlr')


def _drop(f):
    return not (FILES.search(f) or HEADERS.search(f))


def run(ctx):
    ctx.rule = ginv.ROBUST + '. Parsers and file readers of the core. Every guard of the reviewed inventory (data/guards_c15.txt) is still there: not removed, not moved to a looser bound, not made to depend on a further condition'
    ctx.assumptions = ['the reviewed inventory is what the property asks for; what a refusal does to a half-built result is '
                       'the business of other properties',
                       'tests of bytes in local buffers and of values merged from several sources are not compared']
    ginv.run(ctx, lambda f: FILES.search(f), FLOOR, failcall=FAILCALL, drop=_drop)


def freeze(ctx):
    ginv.freeze(ctx, lambda f: FILES.search(f), failcall=FAILCALL, drop=_drop)
