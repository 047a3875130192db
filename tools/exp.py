#!/usr/bin/env python3
# tools/exp.py FILE [ID...]: development only. FILE defines exp(id, props, edits);
# each is built, run through the stable tests and through the checks of props.
import sys,os,importlib.util
sys.argv_save=sys.argv[:]
src=open('/verif/tools/mutate/run.py').read().split('out=sys.argv[1]')[0]
exec(src)
import tempfile,shutil,subprocess,json
body=open('/verif/tools/mutate/run.py').read()
a=body.index("stable=json"); b=body.index("def log(")
exec(body[a:b]); ENV='. /verif/tools/env.sh; '
exps=[]
def exp(id,props,edits): exps.append((id,props,edits))
exec(open(sys.argv_save[1]).read())
want=sys.argv_save[2:]
for id,props,edits in exps:
    if want and id not in want: continue
    d=tempfile.mkdtemp(prefix='exp.',dir='/tmp'); os.chmod(d,0o755)
    try:
        sh('cp -r /repo/src %s/src'%d)
        bad=None
        for f,old,new in edits:
            p='%s/src/%s'%(d,f); s=open(p).read()
            if s.count(old)!=1: bad='edit of %s matches %d times: %r'%(f,s.count(old),old[:70]); break
            open(p,'w').write(s.replace(old,new))
        if bad: print(id,bad); continue
        rc,o,e=sh(ENV+'export GOPATH=/opt/vp/gopath; cd %s/src && go build -trimpath ./collection ./util && go build -trimpath -o /dev/null main/pkeygen.go'%d)
        if rc: print(id,'nobuild',e[-500:]); continue
        sh('cp -r %s/src %s/t; mkdir %s/etc %s/tmp; chmod 777 %s/etc %s/tmp; sed -i \'s#"/etc/poodle"#"%s/etc/poodle"#\' %s/t/util/const_util.go; grep -rlF \'"/tmp/"\' %s/t --include=*.go | xargs -r sed -i \'s#"/tmp/"#"%s/tmp/"#g\''%((d,)*10))
        note=''
        for p in ['collection','util']:
            names='|'.join(s.split('/')[-1] for s in stable if '/'+p+'/' in s)
            rc,o,e=sh(ENV+'export GOPATH=/opt/vp/gopath; cd %s/t/%s && go test -trimpath -vet=off -c -o %s/%s.test . && cd %s/t/%s && ulimit -v 8000000; TMPDIR=%s/tmp HOME=%s/tmp timeout 60 setpriv --reuid 65534 --regid 65534 --clear-groups %s/%s.test -test.run "^(%s)$"'%(d,p,d,p,d,p,d,d,d,p,names),120)
            if rc: note+=' STABLE TESTS FAIL'
        rc,_,e=sh(ENV+'/verif/build/prep %s /opt/vp/gopath %s/ws && GOPATH=%s/ws:/verif/sim go build -trimpath -ldflags=-checklinkname=0 -o %s/dst dst/cmd'%(d,d,d,d))
        if rc: print(id,'prep',e[-500:]); continue
        sh('mkdir -p %s/root/evidence %s/root/replays; cp /verif/KNOWN_FINDINGS %s/root/'%(d,d,d))
        for p in props.split():
            rc,o,e=sh('DST_ROOT=%s/root %s/dst check %s quick'%(d,d,p))
            v=[l for l in o.splitlines() if l.startswith('violation')][:1]
            print(id,p,'CAUGHT' if rc==1 else 'missed' if rc==0 else 'TROUBLE '+e[-300:],note,v[0][:170] if v else ''); sys.stdout.flush()
    finally: shutil.rmtree(d,ignore_errors=True)
