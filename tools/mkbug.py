#!/usr/bin/env python3
# tools/mkbug.py [ID...]: development only. Makes /verif/seeded/<id>/ from the
# definitions in tools/bugs/*.py, and confirms each in a scratch copy: applies,
# builds, passes the stable tests, changes original lines, demo passes without
# it and fails with it.
import sys,os,json,subprocess,shutil,tempfile,glob
BASE='9a8aeba'
sys.path.insert(0,'/verif/tools/bugs')
bugs={}
def bug(id,prop,edits,demo,needs,what,pkg='util',extra=None,script=None):
    assert id not in bugs,id
    bugs[id]=dict(prop=prop,edits=edits,demo=demo,needs=needs,what=what,pkg=pkg,extra=extra or {},script=script)
DEMO='''#!/bin/bash
# Run in /repo after the build: 0 if the property holds, 1 if it is broken.
# Everything happens in a scratch copy, with the fixed paths of the code
# (/etc/poodle, /tmp) moved into it.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
cp -r src "$d/src" && mkdir -p "$d/tmp" "$d/etc" || exit 2
sed -i "s#\\"/etc/poodle\\"#\\"$d/etc\\"#" "$d/src/util/const_util.go"
grep -rlF '"/tmp/"' "$d/src" --include=*.go | xargs -r sed -i "s#\\"/tmp/\\"#\\"$d/tmp/\\"#g"
export TMPDIR="$d/tmp" DEMO_DIR="$d"
cp "$here/demo.go.txt" "$d/src/PKG/zz_demo_test.go"
cd "$d/src/PKG" || exit 2
PRE
timeout 250 go test OPTS -vet=off -count=1 -run '^TestDemo$' . > "$d/log" 2>&1
rc=$?
tail -15 "$d/log"
[ $rc = 0 ]
'''
HOOK='''# os with a hook on everything that is forced to disk
goroot=$(go env GOROOT)
sed 's/^func (f \\*File) Sync() error {/var DemoSync func(name string)\\n\\n&\\n\\tif DemoSync != nil \\&\\& f != nil {\\n\\t\\tDemoSync(f.name)\\n\\t}/' "$goroot/src/os/file_posix.go" > "$d/file_posix.go"
grep -q DemoSync "$d/file_posix.go" || exit 2
echo "{\\"Replace\\":{\\"$goroot/src/os/file_posix.go\\":\\"$d/file_posix.go\\"}}" > "$d/overlay.json"
'''
GENDEMO='''#!/bin/bash
# Run in /repo after the build: 0 if the property holds, 1 if it is broken.
# Everything happens in a scratch copy, with /etc/poodle moved into it.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
cp -r src "$d/src" || exit 2
sed -i "s#\\"/etc/poodle\\"#\\"$d/etc\\"#" "$d/src/util/const_util.go"
(cd "$d/src" && go build -o "$d/pkeygen" main/pkeygen.go) || exit 2
'''
def run(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def main(want):
    for f in sorted(glob.glob('/verif/tools/bugs/*.py')):
        exec(compile(open(f).read(),f,'exec'),dict(bug=bug,HOOK=HOOK))
    bad=[]
    for id,b in bugs.items():
        if want and id not in want: continue
        out='/verif/seeded/'+id
        t=tempfile.mkdtemp(prefix='bug.',dir='/tmp')
        try:
            run('git clone -q /repo %s/r'%t)
            r=t+'/r'
            err=None
            for f,old,new in b['edits']:
                p=r+'/src/'+f; s=open(p).read()
                if s.count(old)!=1: err='edit of %s matches %d times: %r'%(f,s.count(old),old[:60]); break
                open(p,'w').write(s.replace(old,new))
            if err: bad.append((id,err)); print(id,err); continue
            diff=run('git diff',cwd=r).stdout
            # which lines go, and whose are they
            orig=other=0
            for line in run('git diff -U0',cwd=r).stdout.splitlines():
                if line.startswith('--- a/'): cf=line[6:]
                if line.startswith('@@'):
                    a=line.split()[1][1:].split(','); st=int(a[0]); n=int(a[1]) if len(a)>1 else 1
                    if n:
                        for l in run('git blame -s -l -L %d,+%d HEAD -- %s'%(st,n,cf),cwd=r).stdout.splitlines():
                            if l.startswith('^') or l[:7]==BASE[:7]: orig+=1
                            else: other+=1
            if os.path.isdir(out): shutil.rmtree(out)
            os.makedirs(out)
            open(out+'/patch.diff','w').write(diff)
            pre=b['script'] or ''
            d=DEMO.replace('PKG',b['pkg']).replace('PRE',pre).replace('OPTS','-overlay "$d/overlay.json"' if 'overlay.json' in pre else '')
            if b['pkg']=='main': d=GENDEMO+b['script']
            open(out+'/demo.sh','w').write(d); os.chmod(out+'/demo.sh',0o755)
            if b['demo'] is not None: open(out+'/demo.go.txt','w').write(b['demo'])
            for n,c in b['extra'].items(): open(out+'/'+n,'w').write(c)
            json.dump(dict(property=b['prop'],needs=b['needs'],what_it_breaks=b['what']),open(out+'/meta.json','w'),indent=1)
            # confirm
            m=[]
            if orig==0: m.append('no original line changed')
            clean=run('bash %s/demo.sh'%out,cwd='/repo')
            if clean.returncode!=0: m.append('demo fails on the clean tree: '+clean.stdout[-600:]+clean.stderr[-300:])
            assert not run('git -C /repo status --porcelain').stdout
            try:
                ap=run('git -C /repo apply %s/patch.diff'%out)
                if ap.returncode: m.append('does not apply: '+ap.stderr)
                bl=run('bash /opt/vp/build.sh')
                if bl.returncode!=0: m.append('does not build: '+bl.stderr[-600:])
                ts=run('bash /opt/vp/test.sh %s/o.json'%t)
                try:
                    o=json.load(open(t+'/o.json')); stable=json.load(open('/opt/vp/BASELINE.json'))['stable']
                    miss=[x for x in stable if x not in o['passed']]
                    if miss: m.append('stable tests fail: %s'%miss)
                except Exception as e: m.append('tests: %s %s'%(e,ts.stderr[-300:]))
                pat=run('bash %s/demo.sh'%out,cwd='/repo')
                if pat.returncode==0: m.append('demo passes with the patch')
                run('cp -a /repo %s/c'%t)
            finally: run('git -C /repo checkout -- .')
            print(id,b['prop'],'orig lines',orig,'other',other,'OK' if not m else m); sys.stdout.flush()
            if not m and '-v' in sys.argv: print(pat.stdout[-700:])
            if m: bad.append((id,m)); shutil.rmtree(out)
            elif not os.environ.get('NOTRY'):
                s=run("/verif/tools/try.sh %s/c '%s' quick"%(t,b['prop']))
                v=[l for l in s.stdout.splitlines() if 'VIOL' in l]
                print('    caught' if v else '    MISSED',v[0][:200] if v else s.stderr[-300:]); sys.stdout.flush()
        finally: shutil.rmtree(t)
    run('bash /opt/vp/build.sh')
    print('bad:',[x[0] for x in bad])
main([a for a in sys.argv[1:] if not a.startswith('-')])
