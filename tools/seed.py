#!/usr/bin/env python3
"""Makes and tries planted bugs: seed.py make FILE.py | try ID [CHECK...]
FILE.py defines bugs = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo=GO test body or (name, text))]."""
import sys,os,subprocess,json,shutil
V='/verif/seeded'
GO_SH='''#!/bin/bash
# Runs demo_test.go inside the package of the tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
cd Go/sereal || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
go test -vet=off -count=1 -timeout 200s EXTRA-overlay "$tmp/overlay.json" -run '^TestDemo' .
'''
PERL_SH='''#!/bin/bash
# Builds nothing: uses the Perl modules that build.sh made in the tree.
here=$(cd "$(dirname "$0")" && pwd)
for m in Encoder Decoder; do inc="$inc -I$PWD/Perl/$m/blib/lib -I$PWD/Perl/$m/blib/arch"; done
exec perl $inc "$here/demo.pl"
'''
def sh(*a,**k): return subprocess.run(a,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',**k)
def clean():
    sh('git','-C','/repo','checkout','--','.')
def make(f):
    ns={}; exec(open(f).read(),ns)
    for b in ns['bugs']:
        assert not sh('git','-C','/repo','status','--short').stdout
        ok=True
        for fn,old,new in b['edits']:
            p='/repo/'+fn; s=open(p).read()
            if s.count(old)!=1: print(b['id'],'edit matches',s.count(old),repr(old[:60])); ok=False; break
            open(p,'w').write(s.replace(old,new))
        if not ok: clean(); continue
        d=V+'/'+b['id']; os.makedirs(d,exist_ok=True)
        open(d+'/patch.diff','w').write(sh('git','-C','/repo','diff').stdout)
        clean()
        json.dump(dict(property=b['prop'],needs=b['needs'],what_it_breaks=b['breaks']),open(d+'/meta.json','w'),indent=1)
        if 'pl' in b:
            open(d+'/demo.pl','w').write(b['pl']); open(d+'/demo.sh','w').write(PERL_SH)
        else:
            open(d+'/demo_test.go','w').write(b['demo']); open(d+'/demo.sh','w').write(GO_SH.replace('EXTRA',b.get('extra','')))
        os.chmod(d+'/demo.sh',0o755)
def tests():
    r=sh('bash','/opt/vp/build.sh')
    if r.returncode: return 'BUILD FAILS\n'+r.stdout[-800:]
    sh('bash','/opt/vp/test.sh','/tmp/seed.out.json')
    b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('/tmp/seed.out.json'))
    p=set(o.get('passed',o.get('pass',[])))
    m=[x for x in b if x not in p]
    return '' if not m else 'TESTS FAIL %d %s'%(len(m),m[:4])
def demo(i):
    return sh(V+'/'+i+'/demo.sh',cwd='/repo')
def tryit(i,cs):
    assert not sh('git','-C','/repo','status','--short').stdout
    prop=json.load(open(V+'/'+i+'/meta.json'))['property']
    r=demo(i)
    if r.returncode: print(i,'DEMO FAILS UNPATCHED',r.stdout[-800:]); return
    r=sh('git','-C','/repo','apply',V+'/'+i+'/patch.diff')
    if r.returncode: print(i,'NO APPLY',r.stdout); return
    try:
        t=tests() if not os.environ.get('NOTESTS') else ''
        if t: print(i,t); return
        r=demo(i)
        if r.returncode==0: print(i,'DEMO PASSES PATCHED'); return
        for c in cs or [prop]:
            r=sh('/verif/bin/check',c)
            L=[l for l in r.stdout.split('\n') if not l.startswith('VIOLATION')and not l.startswith(c+':')]
            print(i,c,'rc',r.returncode,'CAUGHT' if r.returncode==1 and 'VIOLATION property='+c in r.stdout else 'MISSED', r.stdout.count('VIOLATION'),' '.join(L)[:200])
    finally:
        clean()
    sys.stdout.flush()
if __name__=='__main__':
    if sys.argv[1]=='make': make(sys.argv[2])
    elif sys.argv[1]=='try':
        for a in sys.argv[2].split(','): tryit(a,sys.argv[3:])
