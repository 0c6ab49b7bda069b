#!/usr/bin/env python3
"""mutrun.py MUTS.jsonl OUT.jsonl N SEED PREFIX...: samples N mutants of files with one of the prefixes, filters by build and tests,
runs the quick checks on the rest (development tool)."""
import json,os,random,subprocess,sys,shutil
from concurrent.futures import ThreadPoolExecutor
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env=dict(os.environ,PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'],GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=vendor',GOWORK='off')
CHECKS=[('ihex32',['H01','H02','H04','H03','C01']),('srec19',['S01','S02','H04','H03','C01']),
 ('a2l/module.go',['A01','A11','A09','A12','A08','A10']),('a2l/',['A01','A09','A02','A03','A04','A05','A06','A11','A07','A12','A08','A10']),
 ('record_manager',['C03','V07','V02','V04']),('compu_methods',['V05','V06','C03']),('calib_data',['V04','V03','V02','V07','V01','V06','C03','C02','C01']),('',['V04','V01','V02','V03'])]
def sh(cmd,cwd,timeout=300,e=env):
    try:
        p=subprocess.run(cmd,cwd=cwd,env=e,timeout=timeout,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace'); return p.returncode,p.stdout
    except subprocess.TimeoutExpired: return 124,'timeout'
def clone(i):
    d=f'/tmp/mut/r{i}'
    if not os.path.exists(d): assert sh(['git','clone','-q','/repo',d],'/')[0]==0
    return d
def apply(d,m):
    sh(['git','checkout','-q','-f','.'],d)
    p=f"{d}/{m['File']}"; b=open(p,'rb').read()
    open(p,'wb').write(b[:m['From']]+m['Repl'].encode()+b[m['To']:])
def main():
    muts=[json.loads(l) for l in open(sys.argv[1])]; out=open(sys.argv[2],'a'); n=int(sys.argv[3]); random.seed(int(sys.argv[4])); pre=sys.argv[5:]
    muts=[m for m in muts if any(m['File'].startswith(p) for p in pre)]
    random.shuffle(muts); muts=muts[:n]
    import queue
    q=queue.Queue(); [q.put(i) for i in range(6)]
    def filt(m):
        i=q.get()
        try:
            d=clone(i); apply(d,m)
            if sh(['go','build','./...'],d)[0]: return 'nobuild'
            if sh(['go','test','-vet=off','-count=1','-timeout','60s','./...'],d,150)[0]: return 'tests'
            return 'pass'
        finally: q.put(i)
    with ThreadPoolExecutor(6) as ex: res=list(ex.map(filt,muts))
    print({k:res.count(k) for k in set(res)},flush=True)
    d=clone('c')
    for m,r in zip(muts,res):
        if r!='pass': continue
        apply(d,m)
        checks=next(c for p,c in CHECKS if m['File'].startswith(p))
        m['caught']=None
        for c in checks:
            rc,o=sh(['bash',here+'/run.sh',c,'quick'],'/',900,dict(env,VERIF_REPO=d,VERIF_OUT='/tmp/mut/out',VERIF_SEED='1',VERIF_NOSHRINK='1'))
            if rc==1: m['caught']=c; m['msg']=next((l for l in o.splitlines() if 'violated' in l),'')[:200]; break
            if rc not in (0,1): m['caught']=None; m['msg']=f'{c} rc={rc} {o[-300:]}'
        print('CAUGHT' if m['caught'] else 'SURVIVED',m['caught'] or '',m['File'],m['Line'],m['Func'],m['Desc'][:100].replace('\n',' '),'|',m.get('msg','')[:160],flush=True)
        out.write(json.dumps(m)+'\n'); out.flush()
main()
