#!/usr/bin/env python3
"""mut.py FILE.json [checks...]: each mutant {name, file, old, new, nth?, expect:[ids]}; runs expected checks (and others listed) on a copy."""
import json,sys,subprocess,os,shutil
muts=json.loads(open(sys.argv[1]).read(),strict=False); only=sys.argv[2:]
W=os.environ.get('MW','/tmp/mt/w')
for m in muts:
    if only and m['name'] not in only: continue
    shutil.rmtree(W,ignore_errors=True); subprocess.run(['cp','-a','/repo',W])
    eds=m.get('edits') or [m]
    bad=False
    for e in eds:
        p=os.path.join(W,e['file']); s=open(p).read()
        k=e.get('nth',0)
        parts=s.split(e['old'])
        if len(parts)<=k+1: print(m['name'],'NO MATCH',e['old'][:60]); bad=True; break
        s=e['old'].join(parts[:k+1])+e['new']+e['old'].join(parts[k+1:])
        open(p,'w').write(s)
    if bad: continue
    tests=''
    if m.get('test',True):
        r=subprocess.run('. /opt/vp/env.sh; cd %s && go build ./... && go test ./... 2>&1 | grep -E "^(FAIL|---|ok)" | grep -c FAIL'%W,shell=True,capture_output=True,text=True)
        tests=' tests:'+('pass' if r.stdout.strip()=='0' else 'FAIL '+(r.stdout+r.stderr)[:200].replace('\n',' '))
    res=[]
    for c in m['expect']:
        r=subprocess.run(['timeout','400',os.environ.get('AN','/tmp/an'),c,W],capture_output=True,text=True,env={**os.environ,'VERIF_DIR':os.environ.get('MV','/tmp/mt/v')})
        lines=[l for l in r.stdout.split('\n')]
        v='VIOLATION' in r.stdout
        why=''
        if v:
            try: why=open('/tmp/mt/v/evidence/violation-%s.txt'%c).read().split('\n')
            except: why=['']
            why=' | '.join(x.strip() for x in why[:3])[:230]
        res.append('%s:%s %s'%(c,'caught' if v else ('rc%d quiet'%r.returncode),why))
    print(m['name']+tests); [print('    ',x) for x in res]
shutil.rmtree(W,ignore_errors=True)
