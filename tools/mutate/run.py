#!/usr/bin/env python3
# tools/mutate/run.py OUT [N] [SEED] [file...]: development only. Mutants that
# build and pass the stable tests are run through the checks of their file;
# survivors go to OUT.
import sys,os,subprocess,random,json,tempfile,shutil,threading,queue
PROPS={'util/lc_util':'C02 C05 C04 C08 C09 C06 C03 C01 C07 C20','util/ecdsa_util':'C07 C10 C18 C04','util/key_util':'C12 C11 C25 C17 C16 C10',
'util/value_util':'C12 C11 C25 C10 C16','util/record_util':'C12 C11 C25 C10 C16','util/scheme_util':'C12 C11 C25 C16','util/consensus_util':'C13 C12 C25 C16',
'util/mph_util':'C17 C12 C16 C18','util/misc_util':'C12 C11','util/rand_util':'C18 C17','util/fsync':'C19','collection/avl':'C15 C16','collection/hash':'C14 C16 C18',
'collection/hash_map':'C14','collection/hash_set':'C14','collection/sorted_map':'C15','collection/sorted_set':'C15','collection/comparable':'C15','collection/hashable':'C14 C17',
'collection/util':'C15 C14 C04 C10 C07 C13 C12 C18','main/pkeygen':'C09 C06'}
W={'util/lc_util':3,'main/pkeygen':3,'util/fsync':5,'util/mph_util':1.2,'collection/hash':1.5,'collection/avl':1.2,'util/ecdsa_util':2,'collection/util':.3,'collection/comparable':.3,'collection/hashable':.4,'util/rand_util':.8,'util/misc_util':.8,'util/value_util':.8}
out=sys.argv[1]; N=int(sys.argv[2]); seed=int(sys.argv[3]); files=sys.argv[4:] or list(PROPS)
rnd=random.Random(seed)
ms=[]
for f in files:
    for l in subprocess.run(['/verif/build/mutate','/repo/src/%s.go'%f],capture_output=True,text=True).stdout.splitlines():
        i,line,fn,kind=l.split('\t',3)
        ms.append((rnd.random()**(1/W.get(f,1)),f,int(i),line,fn,kind))
ms.sort(reverse=True)
ms=ms[:N]
q=queue.Queue()
for m in ms: q.put(m)
lock=threading.Lock()
stat={}
stable=json.load(open('/opt/vp/BASELINE.json'))['stable']
def sh(c,t=900):
    try:
        p=subprocess.run(c,shell=True,capture_output=True,text=True,timeout=t); return p.returncode,p.stdout,p.stderr
    except subprocess.TimeoutExpired: return 124,'',''
def log(s):
    with lock:
        open(out,'a').write(s+'\n')
ENV='. /verif/tools/env.sh; '
def one(m):
    _,f,i,line,fn,kind=m
    d=tempfile.mkdtemp(prefix='mut.',dir='/tmp'); os.chmod(d,0o755)
    try:
        sh('cp -r /repo/src %s/src'%d)
        src='%s/src/%s.go'%(d,f)
        sh('/verif/build/mutate /repo/src/%s.go %d %s'%(f,i,src))
        rc,_,e=sh(ENV+'export GOPATH=/opt/vp/gopath; cd %s/src && go build -trimpath ./collection ./util && go build -trimpath -o /dev/null main/pkeygen.go'%d)
        if rc: return 'nobuild',''
        # stable tests, with fixed paths moved, as nobody
        sh('cp -r %s/src %s/t; mkdir %s/etc %s/tmp; chmod 777 %s/etc %s/tmp; sed -i \'s#"/etc/poodle"#"%s/etc/poodle"#\' %s/t/util/const_util.go; grep -rlF \'"/tmp/"\' %s/t --include=*.go | xargs -r sed -i \'s#"/tmp/"#"%s/tmp/"#g\''%((d,)*10))
        failed=[]
        for p in ['collection','util']:
            names='|'.join(s.split('/')[-1] for s in stable if '/'+p+'/' in s)
            rc,o,e=sh(ENV+'export GOPATH=/opt/vp/gopath; cd %s/t/%s && go test -trimpath -vet=off -c -o %s/%s.test . && cd %s/t/%s && TMPDIR=%s/tmp HOME=%s/tmp timeout 60 setpriv --reuid 65534 --regid 65534 --clear-groups %s/%s.test -test.run "^(%s)$"'%(d,p,d,p,d,p,d,d,d,p,names),120)
            if rc: return 'tests',''
        sh('rm -rf %s/t'%d)
        rc,_,e=sh(ENV+'/verif/build/prep %s /opt/vp/gopath %s/ws && GOPATH=%s/ws:/verif/sim go build -trimpath -ldflags=-checklinkname=0 -o %s/dst dst/cmd'%(d,d,d,d))
        if rc: return 'prep',e[-300:]
        sh('mkdir -p %s/root/evidence %s/root/replays; cp /verif/KNOWN_FINDINGS %s/root/'%(d,d,d))
        for p in PROPS[f].split():
            rc,o,e=sh('DST_ROOT=%s/root DST_RUNS=%s %s/dst check %s quick'%(d,os.environ.get('MUT_RUNS','40000'),d,p))
            if rc==1: return 'killed '+p,[l for l in o.splitlines() if l.startswith('violation')][:1]
            if rc!=0: return 'trouble '+p,e[-400:]
        return 'SURVIVED',''
    finally: shutil.rmtree(d,ignore_errors=True)
def work():
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        try: r,x=one(m)
        except Exception as ex: r,x='error',repr(ex)
        with lock: stat[r.split()[0]]=stat.get(r.split()[0],0)+1
        log('%s\t%s.go:%s\t%s\t#%d\t%s\t%s'%(r,m[1],m[3],m[4],m[2],m[5][:150],x))
ts=[threading.Thread(target=work) for _ in range(3)]
[t.start() for t in ts]; [t.join() for t in ts]
log('done %s'%stat)
