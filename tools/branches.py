import sys, traceback, collections
sys.path.insert(0,'/verif')
import vf.core as core
cnt=collections.Counter()
ob=core.Ctx.branch
def b(self,*a,**k):
    n=len(self.decisions)
    r=ob(self,*a,**k)
    if len(self.decisions)>n:
        cnt["".join(f"{f.filename.split('/')[-1]}:{f.lineno}:{f.name} < " for f in reversed(traceback.extract_stack(limit=9)[:-1]))]+=1
    return r
core.Ctx.branch=b
sys.argv=['dbg.py']+sys.argv[1:]
try:
    exec(open('/verif/tools/dbg.py').read())
finally:
    for k,n in cnt.most_common(6): print(n,k)
