import sys,os
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import engine as E
# mk.py out.gb src code(,sep) loops "K=V ..." : builds a harness for experiments
out,src,code,loops,defs=sys.argv[1:6]
j=E.Job('x',src,dict(x.split('=') for x in defs.split()),code=[c for c in code.split(',') if c],loops=[l for l in loops.split(',') if l])
import tempfile
from try_stubs import STUBS
if len(sys.argv)>6: j.stubs=STUBS
gb,err=E.instrument(j,'/tmp/lc',tuple(sys.argv[7:]))
print(gb,err)
os.rename(gb,out)
