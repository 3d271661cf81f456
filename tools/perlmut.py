#!/usr/bin/env python3
"""Plants small systematic changes in the C code of the Perl modules and reports those that small
runs of C22 to C25 do not notice. A tool for finding what the checks do not look at; part of no check.
perlmut.py WORKDIR OUT ZZBIN N SEED FILE... where WORKDIR holds w0, w1, ...: copies of build/perl-plain-*,
ZZBIN is the harness compiled with a test that runs single phases, FILE is Decoder/srl_decoder.c etc."""
import json,os,random,re,shutil,subprocess,sys,threading,queue
work,out,zz,N,seed=sys.argv[1:4]+[int(sys.argv[4]),int(sys.argv[5])]
files=sys.argv[6:]
root=os.environ.get("VERIF_REPO","/repo")+"/Perl/"
DEC=[("C23","docs",800),("C23","dense",1500),("C25","options",1500),("C25","limits",700),("C25","stream",1200),("C22","mutated-plain",1500),("C25","depth",60),("C23","docs",3000),("C22","mutated-plain",6000),("C22","nesting-plain",8)]
ENC=[("C24","values",1500),("C24","dense",2000),("C24","values",9000),("C24","dense",9000)]
def muts(f):
    L=open(root+f).read().split("\n"); res=[]; cm=False; pp=False
    for i,l in enumerate(L):
        s=l.strip(); was=pp; pp=l.endswith("\\") and (pp or s.startswith("#"))
        if s.startswith("/*") or cm:
            cm="*/" not in s; continue
        if s.startswith("#") and not (s.startswith("#define") and l.endswith("\\")): continue
        if not s or re.match(r'(static|STATIC|SRL_STATIC|extern|typedef|case |default|else *$|PERL_STATIC)',s): continue
        if re.search(r'TRACE|assert|ASSERT_|DEBUG|warn\(|printf|ERROR|PerlIO',s): continue
        code=re.sub(r'/\*.*?\*/',lambda m:' '*len(m.group()),l)
        mask=re.sub(r'"(\\.|[^"])*"|\'(\\.|[^\'])*\'',lambda m:'_'*len(m.group()),code)
        def add(new,what): res.append((f,i,new,what))
        ops={'<=':['<'],'>=':['>'],'==':['!='],'!=':['=='],'&&':['||'],'||':['&&'],'<':['<='],'>':['>=']}
        for m in re.finditer(r'(?<![-<>=!&|+*/^%])(<=|>=|==|!=|&&|\|\||<|>)(?![<>=&|])',mask):
            if m.group() in '<>' and ('#include' in l or '->' in mask[m.start()-1:m.end()]): continue
            for o in ops[m.group()]: add(l[:m.start()]+o+l[m.end():],m.group()+" => "+o)
        for m in re.finditer(r' ([-+]) ',mask): add(l[:m.start(1)]+('+' if m.group(1)=='-' else '-')+l[m.end(1):],m.group(1)+" swapped")
        for m in re.finditer(r'(?<![\w.])(0|1|2|3|4|5|8|16|32)(?![\w.])',mask):
            v=int(m.group(1))
            add(l[:m.start(1)]+str(v+1)+l[m.end(1):],"%d => %d"%(v,v+1))
            if v: add(l[:m.start(1)]+str(v-1)+l[m.end(1):],"%d => %d"%(v,v-1))
        m=re.match(r'^(\s*(?:\} *)?(?:else )?(?:if|while) *\()(.*)(\) *\{?\s*\\?)$',code)
        if m and mask.count('(')==mask.count(')'):
            add(m.group(1)+"0 && ("+m.group(2)+")"+m.group(3),"condition false")
            if 'while' not in m.group(1): add(m.group(1)+"1 || ("+m.group(2)+")"+m.group(3),"condition true")
        bs=l.endswith("\\"); t=mask.rstrip("\\").rstrip()
        if t.endswith(";") and mask.count('(')==mask.count(')') and not re.match(r'\s*(return|break|goto|continue|[A-Za-z_]\w*(\s*\*+\s*|\s+)\**\s*\w+\s*(=|;|,|\[))',t):
            add(re.match(r'\s*',l).group()+";"+(" \\" if bs else ""),"deleted: "+s[:80])
        if re.match(r'\s*(break|continue);',t) : add(re.match(r'\s*',l).group()+";"+(" \\" if bs else ""),"deleted: "+s)
    return res
allm=[m for f in files for m in muts(f)]
random.Random(seed).shuffle(allm)
done=set()
if os.path.exists(out):
    for l in open(out):
        d=json.loads(l); done.add((d["file"],d["line"],d["what"],d["new"]))
print(len(allm),"mutants",len(done),"done"); sys.stdout.flush()
Q=queue.Queue()
for m in allm[:N]:
    if (m[0],m[1]+1,m[3],m[2]) not in done: Q.put(m)
lock=threading.Lock()
def sh(cmd,cwd,t,env=None):
    p=subprocess.Popen(cmd,cwd=cwd,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,env=env,start_new_session=True)
    try:
        o,_=p.communicate(timeout=t); return p.returncode,o.decode("latin1")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); p.wait(); return 124,"timeout"
def worker(w):
    d=os.path.join(work,w)
    while True:
        try: f,i,new,what=Q.get_nowait()
        except queue.Empty: return
        L=open(root+f).read().split("\n"); old=L[i]; L[i]=new
        mod=f.split("/")[0]
        dirs=[mod] if mod in("Decoder","Encoder") else ["Encoder","Decoder"]
        b=f.split("/")[1]; r="survived"; why=""
        paths=[d+"/Perl/"+f] if mod!="shared" else [d+"/Perl/"+x+"/"+b for x in dirs+["shared"] if os.path.exists(d+"/Perl/"+x+"/"+b)]
        for p in paths: open(p,"w").write("\n".join(L))
        for x in dirs:
            dd=d+"/Perl/"+x
            if not b.endswith(".xs"): sh("rm -f srl_*.o %s.o %s.c"%(x,x) if b.endswith(".h") else "rm -f %s.o"%b[:-2],dd,10)
            c,o=sh("make OPTIMIZE=-O1 2>&1 | tail -5; test ${PIPESTATUS[0]} = 0" if False else "make OPTIMIZE=-O1 >/dev/null 2>&1",dd,120)
            if c: r="build"
        if r!="build":
            e=dict(os.environ,VERIF_PERL_plain=d,VERIF_ROOT="/tmp/w",ZZ="1")
            for n,(ck,ph,cnt) in enumerate(DEC+ENC if mod=="shared" else DEC if mod=="Decoder" else ENC):
                e.update(ZC=ck,ZP=ph,ZN=str(cnt),ZS=str(n+1))
                c,o=sh("ulimit -v 16000000; nice -n 15 %s -test.v -test.run TestZZ"%zz,"/tmp/w/harness",90,e)
                m=re.search(r'^=== .*times.*$|^panic.*$|^timeout',o,re.M)
                if m or "PASS" not in o:
                    r="killed"; why=ck+" "+ph+": "+(m.group()[:200] if m else o[-200:]); break
        for p in paths: open(p,"w").write("\n".join(L[:i]+[old]+L[i+1:]))
        with lock:
            open(out,"a").write(json.dumps(dict(file=f,line=i+1,what=what,old=old,new=new,result=r,why=why))+"\n")
            print(Q.qsize(),f,i+1,what,r); sys.stdout.flush()
ts=[threading.Thread(target=worker,args=(w,)) for w in sorted(os.listdir(work)) if w.startswith("w")]
[t.start() for t in ts]; [t.join() for t in ts]
