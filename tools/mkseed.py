"""mkseed: helper to write /verif/seeded/<id>/ from string replacements.
Usage: from mkseed import seed; seed(id, property, edits={file: [(old,new),...]}, pkg='./pkg/x', test='go test source', needs=..., breaks=..., race=False, timeout=...)"""
import os, subprocess, tempfile, json, shutil
def seed(id, prop, edits, pkg, test, needs, breaks, run='TestDemo', flags=''):
    d='/verif/seeded/'+id
    os.makedirs(d, exist_ok=True)
    t=tempfile.mkdtemp(prefix='mkseed')
    patch=''
    for f,reps in edits.items():
        src=open('/repo/'+f).read()
        new=src
        for a,b in reps:
            assert new.count(a)==1, (id, f, new.count(a), a)
            new=new.replace(a,b)
        os.makedirs(os.path.join(t,'a',os.path.dirname(f)),exist_ok=True)
        os.makedirs(os.path.join(t,'b',os.path.dirname(f)),exist_ok=True)
        open(os.path.join(t,'a',f),'w').write(src)
        open(os.path.join(t,'b',f),'w').write(new)
        r=subprocess.run(['/opt/veriftools/go1.23.12/bin/gofmt','-l',os.path.join(t,'b',f)],capture_output=True,text=True)
        if r.stdout or r.stderr: print('gofmt:',r.stdout,r.stderr)
        p=subprocess.run(['diff','-u','a/'+f,'b/'+f],cwd=t,capture_output=True,text=True).stdout
        import re
        p=re.sub(r'^(--- a/\S+|\+\+\+ b/\S+)\t.*$',r'\1',p,flags=re.M)
        patch+=p
    shutil.rmtree(t)
    open(d+'/patch.diff','w').write(patch)
    open(d+'/demo_test.go','w').write(test)
    open(d+'/demo.sh','w').write('''#!/bin/bash
# Runs demo_test.go inside %s of the repository in the current directory.
. /opt/vp/env.sh 2>/dev/null
set -u
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%%s/%s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$D" >"$T/overlay.json"
go test -overlay "$T/overlay.json" -vet=off -count=1 -timeout 200s %s -run '^%s$' %s
''' % (pkg, pkg.lstrip('./'), flags, run, pkg))
    os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
