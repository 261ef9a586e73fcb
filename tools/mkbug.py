#!/usr/bin/env python3
"""mkbug.py: makes /verif/seeded/<id>/ from an edit of a scratch copy of /repo, and
confirms it: demo passes on HEAD, fails with the patch, stable tests pass.
usage (from python): bug(id, property, [(file, old, new), ...], needs, breaks, demo_go, xcf=False)"""
import os,shutil,subprocess,json,sys,tempfile
V='/verif'
DEMO='''#!/bin/bash
# Exits 0 when the library in the current directory behaves, 1 when it does not.
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
dir=$(mktemp -d) || exit 2
trap 'rm -rf "$dir"' EXIT
cp "$here/demo.go" "$dir/main.go"
%(pre)scat >"$dir/go.mod" <<EOF
module demo

go 1.19

require (
	vimagination.zapto.org/limage v0.0.0
%(req)s)

replace vimagination.zapto.org/limage => $repo
%(rep)sEOF
cd "$dir" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
go build -buildvcs=false %(race)s-o demo . || exit 2
%(run)s
'''
def bug(id,prop,edits,needs,breaks,demo,xcf=False,race=False,run=None,keep=True):
    d=os.path.join(V,'seeded',id)
    os.makedirs(d,exist_ok=True)
    t=tempfile.mkdtemp(prefix='bug-')
    r=os.path.join(t,'repo')
    try:
        shutil.copytree('/repo',r)
        open(os.path.join(d,'demo.go'),'w').write(demo)
        dd={'pre':'','req':'','rep':'','race':'-race ' if race else '','run':run or 'timeout 240 ./demo || exit 1'}
        if xcf:
            dd['pre']='cp -r "$here/standins" "$dir/standins"\n'
            for m in ('byteio','memio','parser'):
                dd['req']+='\tvimagination.zapto.org/%s v1.0.0\n'%m
                dd['rep']+='replace vimagination.zapto.org/%s => ./standins/%s\n'%(m,m)
            shutil.rmtree(os.path.join(d,'standins'),ignore_errors=True)
            shutil.copytree(os.path.join(V,'standins'),os.path.join(d,'standins'),ignore=shutil.ignore_patterns('*.py'))
        open(os.path.join(d,'demo.sh'),'w').write(DEMO%dd); os.chmod(os.path.join(d,'demo.sh'),0o755)
        def demo_rc(): return subprocess.run([os.path.join(d,'demo.sh')],cwd=r,capture_output=True,text=True)
        a=demo_rc()
        for f,o,n in edits:
            p=os.path.join(r,f); s=open(p).read()
            assert s.count(o)==1,(f,o,s.count(o))
            open(p,'w').write(s.replace(o,n))
        fm=subprocess.run(['gofmt','-l','.'],cwd=r,capture_output=True,text=True).stdout
        diff=subprocess.run(['git','diff'],cwd=r,capture_output=True,text=True).stdout
        open(os.path.join(d,'patch.diff'),'w').write(diff)
        json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(os.path.join(d,'meta.json'),'w'),indent=1)
        env=dict(os.environ)
        b=subprocess.run(['go','build','.','./lcolor','./internal','./ora'],cwd=r,capture_output=True,text=True)
        mf=os.path.join(t,'go.mod'); s=open(os.path.join(r,'go.mod')).read()
        for m in ('byteio','memio','parser'): s+='\nreplace vimagination.zapto.org/%s => /verif/standins/%s\n'%(m,m)
        open(mf,'w').write(s)
        ts=subprocess.run(['go','test','-vet=off','-modfile='+mf,'./...'],cwd=r,capture_output=True,text=True)
        c=demo_rc()
        print(id,prop,'demo base',a.returncode,'patched',c.returncode,'build',b.returncode,'tests',ts.returncode,'gofmt',repr(fm))
        if a.returncode: print('  base demo:',(a.stdout+a.stderr)[:1500])
        if c.returncode not in (1,): print('  patched demo:',(c.stdout+c.stderr)[:800])
        else: print('   ',(c.stdout+c.stderr).strip()[:300])
        if b.returncode: print(b.stderr[:500])
        if ts.returncode: print((ts.stdout+ts.stderr)[-1500:])
    finally:
        shutil.rmtree(t)
