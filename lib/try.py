import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine as E
STUBS=[(a,b) for a,b in (x.split(':') for x in "calc_crc:stub_calc_crc skip_loop_body:stub_skip_loop_body read_bits:stub_read_bits write_bits:stub_write_bits vm_math_poly_eval:stub_poly_eval vm_math_poly_solve:stub_poly_solve vm_math_spline_eval:stub_spline_eval vm_math_spline_solve:stub_spline_solve".split())]
if __name__=="__main__":
    sel=sys.argv[1]; tags=int(sys.argv[2],0); defs=dict(x.split('=') for x in sys.argv[3].split()) if len(sys.argv)>3 else {}
    backend=sys.argv[4] if len(sys.argv)>4 else 'sat'
    ops=[]
    for part in sel.split(','):
        a,_,b=part.partition('-'); ops+=range(int(a,16),int(b or a,16)+1)
    js=[E.Job(f"{o:02x}",'vm_step.c',dict(defs,OPC=hex(o),TAGS=tags),checks=bool(tags&1),unwind=70,stubs=STUBS,timeout=int(os.environ.get('T','120')),backend=backend,code=['vm_code.c'],loops=[l for l in os.environ.get('LOOPS','').split(',') if l],cbmc=os.environ.get('CB','--sat-solver cadical').split()) for o in ops]
    def on(r):
        print(r.job.name,r.status,f"{r.time:.1f}s solver {r.solver_time:.1f}",r.vccs,r.failed[:6], r.log[-700:] if r.status in('error',) else '',flush=True)
    E.run_all(js,on)
