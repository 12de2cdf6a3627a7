import os,subprocess,json,difflib,sys,time
def sh(c,t=600):
    p=subprocess.run(c,shell=True,capture_output=True,text=True,timeout=t)
    return p.returncode,(p.stdout+p.stderr)[-1500:]
def make(sid,prop,edits,needs,breaks,demo_c,demo_extra=None,run=None,test=True,check=True):
    d='/verif/seeded/'+sid; os.makedirs(d,exist_ok=True)
    diff=''
    byfile={}
    for f,o,n in edits: byfile.setdefault(f,[]).append((o,n))
    for f,l in byfile.items():
        a=subprocess.check_output(['git','-C','/repo','show','HEAD:'+f],text=True); b=a
        for o,n in l:
            assert b.count(o)==1,(f,b.count(o),o)
            b=b.replace(o,n)
        diff+=''.join(difflib.unified_diff(a.splitlines(1),b.splitlines(1),'a/'+f,'b/'+f))
    open(d+'/patch.diff','w').write(diff)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    if demo_c is not None: open(d+'/demo.c','w').write(demo_c)
    run=run or 'timeout 100 "$T/demo"'
    open(d+'/demo.sh','w').write('''#!/bin/bash
# exit 0: the property holds on the built tree; nonzero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
B=.build-waf-default/src
clang -std=gnu11 -w -fblocks -funsigned-char -fno-strict-aliasing -fwrapv -march=x86-64-v2 \\
  -D_GNU_SOURCE -O1 -DHAS_LIBCOMMON_REPOSITORY=0 -D__gcc_has_no_ifunc -DHAVE_OPENSSL=1 -DHAVE_ZLIB=1 -DHAVE_LIBXML=1 \\
  -I. -Isrc -Isrc/compat -I/usr/include/libxml2 %s "$D/demo.c" -o "$T/demo" \\
  -Wl,--start-group $B/liblibcommon.a $B/liblibcommon-minimal.a $B/liblibcommon-iop.a -Wl,--end-group \\
  -lxml2 -lssl -lcrypto -lz -ldl -lpthread -lm -lrt || exit 3
%s
'''%(demo_extra or '',run))
    r=verify(sid,prop,test,check)
    print(sid,r); return r
def verify(sid,prop=None,test=True,check=True):
    d='/verif/seeded/'+sid
    if not prop: prop=json.load(open(d+'/meta.json'))['property']
    out=[]
    if sh('git -C /repo status --short')[1].strip(): raise Exception('repo dirty')
    try:
        out.append(('base build',sh('bash /opt/vp/build.sh')[0]))
        rc,o=sh('cd /repo && bash %s/demo.sh'%d,310); out.append(('base demo',rc, o if rc else ''))
        rc,o=sh('git -C /repo apply %s/patch.diff'%d); out.append(('apply',rc,o if rc else ''))
        rc,o=sh('bash /opt/vp/build.sh'); out.append(('build',rc,o if rc else ''))
        if rc==0:
            rc,o=sh('cd /repo && bash %s/demo.sh'%d,310); out.append(('bug demo',rc,o[-300:]))
            if check:
                rc,o=sh('cd /verif && timeout 800 python3 check.py %s'%prop,900); out.append(('check',rc,[x[:300] for x in o.splitlines() if x.startswith('  [') or 'BROKEN' in x]))
            if test:
                sh('bash /opt/vp/test.sh /tmp/seedtool/out.json',900)
                o=json.load(open('/tmp/seedtool/out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
                st=b.get('stable') or b.get('passed')
                miss=[x for x in st if x not in set(o['passed'])]
                out.append(('tests missing',len(miss),miss[:4]))
    finally:
        sh('git -C /repo checkout -- .'); sh('bash /opt/vp/build.sh')
    return out
if __name__=='__main__':
    for s in sys.argv[1:]: 
        for l in verify(s): print(s,l)
