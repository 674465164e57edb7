import subprocess,sys,json
# args: "msg|i,j,..." ...  with original indices
groups=[(a.rsplit("|",1)[0],[int(x) for x in a.rsplit("|",1)[1].split(",")]) for a in sys.argv[1:]]
allidx=sorted(i for _,g in groups for i in g)
n=max(allidx)+1
rem=list(range(n))
for msg,g in groups:
    cur=",".join(str(rem.index(i)) for i in g)
    subprocess.check_call(["python3","/verif/tools_hc.py",msg,cur],stdout=subprocess.DEVNULL)
    rem=[i for i in rem if i not in g]
