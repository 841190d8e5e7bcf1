# append "fixed:" entries for the fix commits of /repo not yet recorded: addfixed.py PROP
import subprocess, sys
P='/verif/known_findings.jsonl'; t=open(P).read()
for l in reversed(subprocess.check_output(['git','-C','/repo','log','--format=%h %s','2e562e7..HEAD'],text=True).splitlines()):
    h,m=l.split(' ',1)
    if m.startswith('fix:') and h not in t:
        t+='fixed: property=%s %s %s\n'%(sys.argv[1],h,m[5:]); print(h,m)
open(P,'w').write(t)
