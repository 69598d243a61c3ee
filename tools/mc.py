import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import *
import time
build_java()
o="/tmp/mc.out"
if os.path.exists(o): os.remove(o)
t=time.time(); r=Tlc(sys.argv[1],sys.argv[2],env={"OUT":o},workers=int(sys.argv[3]) if len(sys.argv)>3 else 4).wait()
print(r["rc"],r["states"],r["distinct"],round(time.time()-t,1), sum(1 for _ in open(o)) if os.path.exists(o) else 0); print(err_text(r["text"])[:4000] if r["rc"] else "")
