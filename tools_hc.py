"""hc.py 'msg' i,j,k : commit the given hunks (0-based) of the working diff in /repo"""
import subprocess,sys,re
d=subprocess.run(['git','-C','/repo','diff','-U1'],capture_output=True,text=True).stdout
files=re.split(r'(?=^diff --git )',d,flags=re.M)[1:]
hunks=[]
for f in files:
    parts=re.split(r'(?=^@@ )',f,flags=re.M)
    for h in parts[1:]: hunks.append((parts[0],h))
if len(sys.argv)<3:
    for i,(a,h) in enumerate(hunks): print(i,a.split()[3],h.split('\n')[0][:100]); print('\n'.join(h.split('\n')[1:6]))
    sys.exit()
want=[int(x) for x in sys.argv[2].split(',')]
out='';last=None
for i in want:
    a,h=hunks[i]
    if a!=last: out+=a; last=a
    out+=h
subprocess.run(['git','-C','/repo','apply','--cached','--unidiff-zero','--recount','-'],input=out,text=True,check=True)
subprocess.run(['git','-C','/repo','commit','-qm',sys.argv[1]],check=True)
