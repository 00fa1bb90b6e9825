"""addkf.py COMMIT PROPERTY... : append 'fixed' entries for fix commits of /repo (subject line is the description)"""
import sys,json,subprocess
k=open('/verif/known_findings.jsonl','a')
a=sys.argv[1:]
for c,p in zip(a[::2],a[1::2]):
    h,s=subprocess.check_output(['git','-C','/repo','log','-1','--format=%h\t%s',c],text=True).strip().split('\t')
    s=s.replace('fix: ','',1); k.write(json.dumps(dict(status='fixed',property=p,commit=h,what=s,line=f'fixed: property={p} {h} {s}'))+'\n')
