#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: writes seeded/ID from a list of planted bugs and confirms each in a scratch copy.

SPEC.py defines PLANTS, a list of dicts: id, property, needs, breaks, edits [(file, old, new)], pkg, demo (Go test source
with func TestZZDemo), tags (optional)."""
import json,os,subprocess,sys,shutil,runpy
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
wt='/tmp/plant/repo'
env=dict(os.environ,PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'],GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=vendor',GOWORK='off')
def sh(cmd,cwd=None,timeout=600,env=env):
    try:
        p=subprocess.run(cmd,cwd=cwd,env=env,timeout=timeout,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace')
        return p.returncode,p.stdout
    except subprocess.TimeoutExpired as e:
        return 124,'timeout'
DEMO='''#!/bin/bash
# Fails when the planted change is in the tree, passes without it.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=vendor GOWORK=off
repo=$(pwd)
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s":"%s"}}' "$repo/PKGzz_demo_test.go" "$here/demo_src.txt" > "$tmp/overlay.json"
timeout 200 go test -overlay "$tmp/overlay.json" -tags "TAGS" -vet=off -count=1 -timeout 120s -run '^TestZZDemo$' ./PKG
'''
def baseline():
    return set(json.load(open('/opt/vp/BASELINE.json')).get('stable',[]) or [])
def main():
    spec=runpy.run_path(sys.argv[1]); want=set(sys.argv[2:])
    if not os.path.exists(wt):
        os.makedirs('/tmp/plant',exist_ok=True); sh(['git','-C','/repo','worktree','prune'])
        rc,o=sh(['git','clone','-q','/repo',wt]); assert rc==0,o
    head=sh(['git','-C','/repo','rev-parse','HEAD'])[1].strip()
    sh(['git','-C',wt,'fetch','-q']); rc,o=sh(['git','-C',wt,'checkout','-q','-f',head]); assert rc==0,o
    base_src=None
    for p in spec['PLANTS']:
        if want and p['id'] not in want: continue
        sh(['git','-C',wt,'checkout','-q','-f',head])
        d=f"{here}/seeded/{p['id']}"
        os.makedirs(d,exist_ok=True)
        pkg=p.get('pkg','');pkg=pkg+'/' if pkg and not pkg.endswith('/') else pkg
        open(d+'/demo.sh','w').write(DEMO.replace('PKG',pkg).replace('TAGS',p.get('tags','')))
        os.chmod(d+'/demo.sh',0o755)
        open(d+'/demo_src.txt','w').write(p['demo'])
        json.dump({"property":p['property'],"needs":p['needs'],"what_it_breaks":p['breaks']},open(d+'/meta.json','w'),indent=1)
        rc0,o0=sh(['bash',d+'/demo.sh'],cwd=wt)
        ok=True
        for f,a,b in p['edits']:
            s=open(f'{wt}/{f}').read()
            if s.count(a)!=1: print(p['id'],'EDIT matches',s.count(a),f,repr(a[:60])); ok=False; break
            open(f'{wt}/{f}','w').write(s.replace(a,b))
        if not ok: continue
        sh(['gofmt','-l','.'],cwd=wt)
        diff=sh(['git','-C',wt,'diff'])[1]
        open(d+'/patch.diff','w').write(diff)
        rb,ob=sh(['go','build','./...'],cwd=wt)
        rt,ot=sh(['go','test','-vet=off','-count=1','-timeout','5m','./...'],cwd=wt) if rb==0 else (9,'')
        r1,o1=sh(['bash',d+'/demo.sh'],cwd=wt)
        # do the removed lines belong to the original repository?
        orig='?'
        e=dict(env,VERIF_REPO=wt,VERIF_OUT='/tmp/plant/out',VERIF_SEED='1'); os.makedirs('/tmp/plant/out',exist_ok=True)
        rk,ok_=sh(['bash',here+'/run.sh',p['property'],'quick'],cwd=here,env=e,timeout=900)
        caught=rk==1 and f"VIOLATION property={p['property']} " in ok_
        print(f"{p['id']}: build {rb} tests {rt} demo clean {rc0} demo planted {r1} check {'CAUGHT' if caught else 'MISSED rc=%d'%rk}")
        if rc0!=0: print(o0[-600:])
        if rb!=0: print(ob[-600:])
        if rt not in(0,9): print('\n'.join(l for l in ot.split('\n') if 'FAIL' in l)[:800])
        print('    ',' '.join(ok_.strip().split('\n')[0].split())[:300])
        sys.stdout.flush()
    sh(['git','-C',wt,'checkout','-q','-f',head])
main()
