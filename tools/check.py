#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's current tree.

1. build the verifier and generate the obligations of the property's contracts
   (and of every contract they rely on) from /repo's source; discharge them;
2. if one fails, search for a concrete failing history with the property's
   replay program, compiled against /repo;
3. write evidence/<PROPERTY>.json and, for a violation, a replay file.

Exit 0: every obligation discharged.  Exit 1 and a VIOLATION line otherwise.
"""
import json,os,signal,subprocess,sys,time,hashlib
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get('VERIF_REPO','/repo')
prop=sys.argv[1]
tier=os.environ.get('VERIF_TIER','quick')
if tier not in('quick','thorough'): tier='quick'
seed=int(os.environ.get('VERIF_SEED','1') or 1)
t0=time.time()
env=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOSUMDB='off',GOTOOLCHAIN='local',GOWORK='off')
if 'HOME' not in env: env['HOME']='/root'
os.makedirs(f'{V}/bin',exist_ok=True); os.makedirs(f'{V}/evidence',exist_ok=True)
def run(cmd,**k): return subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,env=env,**k)

def limited(cmd,limit):
    """run cmd and its solvers in a process group that ends when the time is up"""
    p=subprocess.Popen(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,env=env,start_new_session=True)
    try: o,_=p.communicate(timeout=max(limit,30)); return o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,signal.SIGKILL); o,_=p.communicate()
        return (o or '')+'\nthe verifier ran out of time'
def fatal(msg):
    print(f'check error: {msg}'); sys.exit(3)

b=run(['go','build','-o',f'{V}/bin/gover','.'],cwd=f'{V}/gover')
if b.returncode: fatal('verifier does not build:\n'+b.stdout)
lim=dict(quick=('3s','15s','5m'),thorough=('6s','60s','40m'))[tier]
def tagged(d):
    import glob,re
    return any(prop in m.group(1).split() for f in glob.glob(f'{V}/{d}/*.spec') for m in re.finditer(r'^\s+prop\s+(.*)$',open(f).read(),re.M))
res=None; cmds=[]
# contracts: sequential; contracts/conc: what holds whatever other goroutines do
for d in [d for d in('contracts','contracts/conc') if tagged(d)]:
    out=f"{V}/bin/result-{prop}-{d.replace('/','-')}.json"
    try: os.unlink(out)
    except OSError: pass
    cmd=[f'{V}/bin/gover','-repo',REPO,'-specs',f'{V}/{d}','-prop',prop,'-out',out,'-short',lim[0],'-long',lim[1],'-budget',lim[2]]
    g=limited(cmd,{'quick':600,'thorough':4*3600}[tier]-(time.time()-t0)); cmds.append(' '.join(c.replace(V,'/verif') for c in cmd))
    if not os.path.exists(out):
        r=dict(property=prop,obligations=1,discharged=0,bounded_obligations=0,functions=[],backends={},failed=[],trusted=[],assumptions=[],solver_seconds=0,solver_runs=0,wall_s=0,
          errors=[dict(function='-',kind='generation',obligation='the verifier produced no result',status='error',output=g[-4000:])])
    else:
        r=json.load(open(out))
    for f in r['functions']:
        if d!='contracts': f['concurrent']=True
    if res is None: res=r
    else:
        for k,v in r.items():
            if k in('backends',):
                for n,c in v.items(): res[k][n]=res[k].get(n,0)+c
            elif isinstance(v,list): res[k]=(res.get(k) or [])+[e for e in v if not (isinstance(e,str) and e in (res.get(k) or []))]
            elif isinstance(v,(int,float)): res[k]=res.get(k,0)+v
if res is None: fatal('no contracts for '+prop)
bad=res['failed']+res['errors']

def search(budget,seed):
    """concrete search against the real code; returns (result or None, note)"""
    d=f'{V}/replay/{prop}'
    if not os.path.isdir(d): return None,'no replay program'
    prep=f'{d}/build.sh'
    exe=f'{V}/bin/replay-{prop}'
    if REPO!='/repo': # development only: another tree
        open(f'{V}/bin/replay.mod','w').write(open(f'{V}/replay/go.mod').read().replace('=> /repo','=> '+REPO))
        open(f'{V}/bin/replay.sum','w').write(open(f'{V}/replay/go.sum').read())
        env['GOFLAGS']=f'-mod=mod -modfile={V}/bin/replay.mod'
    if os.path.exists(prep): r=run(['bash',prep,exe,REPO],cwd=f'{V}/replay')
    else: r=run(['go','build','-o',exe,f'./{prop}'],cwd=f'{V}/replay')
    if r.returncode: return None,'replay program does not build against this tree:\n'+r.stdout[-3000:]
    try:
        p=subprocess.run([exe,'-seed',str(seed),'-budget',f'{budget}s'],stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,timeout=min(budget*3+90,max(30,{'quick':840,'thorough':10**6}[tier]-(time.time()-t0))))
    except subprocess.TimeoutExpired:
        return None,'replay program timed out'
    lines=[l for l in p.stdout.splitlines() if l.startswith('{')]
    if lines:
        try: return json.loads(lines[-1]),''
        except ValueError: pass
    # fatal runtime errors (concurrent map writes, deadlock, stack overflow) cannot be recovered
    if p.returncode not in (0,) and ('fatal error:' in p.stderr or 'panic:' in p.stderr):
        return dict(property=prop,found=True,failure=p.stderr[:3000],history=p.stdout.splitlines()[-40:],case=-1,seed=seed,cases=0,distinct=0,seconds=0),''
    return None,'replay program ended with %s: %s'%(p.returncode,(p.stderr+p.stdout)[-1500:])

known=[]
kf=f'{V}/KNOWN_FINDINGS.txt'
if os.path.exists(kf):
    for l in open(kf):
        if l.startswith(f'known: property={prop} '): known.append(l.strip().split(' ',2)[2])
for k in known: print(f'KNOWN-FINDING: property={prop} {k}')

budget={'quick':5,'thorough':120}[tier]
cross,note=None,''
if bad: budget={'quick':90,'thorough':600}[tier]
cross,note=search(budget,seed)
violated=bool(bad) or bool(cross and cross['found'])

M=json.load(open(f'{V}/MANIFEST.json'))
mine=next((c for c in M['checks'] if c['property']==prop),None)
level=mine['level'] if mine else 'proof'
fns=[f for f in res['functions']]
cov=dict(obligations=res['obligations'],discharged=res['discharged'],
  checker_cmd='; '.join(cmds),
  trusted_base=['gover: the verification-condition generator in /verif/gover (SSA of golang.org/x/tools, go/types)',
    'the SMT solvers that answered: '+', '.join(sorted(res['backends'])) ]+res['trusted'],
  functions_under_contract=[dict(function=f['function'],where=f['where'],obligations=f['obligations'],discharged=f['discharged'],kinds=f['kinds'],paths=f['paths'],
     **({'dependency':True} if f.get('dependency') else {}),**({'concurrent':True} if f.get('concurrent') else {}),**({'bounded':f['bounded']} if f.get('bounded') else {}),**({'error':f['error']} if f.get('error') else {}),
     **({'inlined':f['inlined']} if f.get('inlined') else {})) for f in fns],
  backends=res['backends'],solver_seconds=round(res['solver_seconds'],2),solver_runs=res['solver_runs'],
  bounded_obligations=res['bounded_obligations'],
  assumptions=res['assumptions']+['machine arithmetic: sums and differences of two variables wrap and are unknown outside the range of their type; constant steps (i+1) and products are taken not to overflow; maps and slices fit in memory (capacity at most 2^60)'],
  failed=[{k:v for k,v in f.items() if k not in('query','output')} for f in bad][:50])
if cross: cov['concrete_cross_check']=dict(evaluations=cross['cases'],distinct_nontrivial=cross['distinct'],rule='random histories of growing size run against the compiled code and compared with the reference model; non-trivial: more than one step, counted by distinct history text',samples=cross.get('samples') or [],seconds=cross['seconds'])
elif note: cov['concrete_cross_check_note']=note
json.dump(dict(property=prop,tier=tier,seed=seed,level=level,coverage=cov,wall_s=round(time.time()-t0,2)),open(f'{V}/evidence/{prop}.json','w'),indent=1)

print(f"{prop}: {res['discharged']}/{res['obligations']} obligations discharged over {len(fns)} functions; solver {res['solver_seconds']:.1f}s; "+
      (f"concrete runs {cross['cases']}" if cross else note.splitlines()[0] if note else ''))
if not violated: sys.exit(0)
os.makedirs(f'{V}/evidence/replays',exist_ok=True)
rp=f'{V}/evidence/replays/{prop}.json'
found=bool(cross and cross['found'])
json.dump(dict(property=prop,failed_obligations=bad[:20],failing_input=cross if found else None,
  rerun=(f"cd {V}/replay && go run ./{prop} -seed {cross['seed']} -case {cross['case']}" if found else None),
  note=note or None),open(rp,'w'),indent=1)
for f in bad[:6]:
    print(f"  failed: {f['function']} [{f['kind']}] {f['obligation']} {('{'+f['clause']+'}') if f.get('clause') else ''} ({f['status']})\n    path: {f.get('path','')}")
if found:
    print('  failing history: '+'; '.join(cross['history'][-30:])); print('  '+str(cross['failure']).splitlines()[0])
    print(f'VIOLATION property={prop} replay={rp}')
else:
    if note: print('  '+note.splitlines()[0])
    print(f'VIOLATION property={prop} replay={rp} no-failing-input-found')
sys.exit(1)
