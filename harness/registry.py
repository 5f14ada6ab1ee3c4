from bounds import BOUNDS
PROPS = {}
NOT_APPLICABLE = {}
def P(id, harnesses):
    quick, thorough, outside, assumptions = BOUNDS[id]
    PROPS[id] = dict(harnesses=harnesses, bounds=dict(quick=quick, thorough=thorough), outside=outside, assumptions=assumptions)
def H(file, quick, thorough=None, **kw):
    return dict(file=file, quick=quick, thorough=thorough or quick, **kw)

P("C01", [H("c01.cc", [dict(n=4, m=3), dict(big=1)], [dict(n=7, m=4), dict(big=1)])])
P("C02", [H("c02.cc", [dict(n=4, n3=2), dict(big=2)], [dict(n=8, n3=4), dict(big=4)])])
P("C03", [H("c03.cc", [dict(n=4), dict(big=1)], [dict(n=7), dict(big=1)])])
P("C04", [H("c04.cc", [dict(n=4), dict(lo=2)], [dict(n=6), dict(lo=3)])])
P("C05", [H("c05.cc", [dict(n=6)], [dict(n=9)])])
_fp = lambda ip, fp, d: dict(value=1, ip=ip, fp=fp, dbl=d)
P("C06", [H("c06.cc", [dict(n=5), dict(many=1), _fp(5,0,0), _fp(12,0,1), _fp(1,1,0), _fp(0,1,1), _fp(1,2,0)],
  [dict(n=8), dict(many=1), _fp(6,0,0), _fp(13,0,1), _fp(1,1,0), _fp(1,2,0), _fp(2,2,0), _fp(1,1,1), _fp(1,2,1), _fp(0,3,1)])])
_c07 = lambda ns: [dict(mode=i, n=n) for i, n in enumerate(ns)] + [dict(mode=10)]
P("C07", [H("c07.cc", _c07([8,6,6,6,6,6,7,6,6,6]), _c07([10,8,8,8,8,8,10,9,8,9]))])
P("C08", [H("c08.cc", [dict(n=5), dict(big=2)], [dict(n=8), dict(big=3)])])
P("C09", [H("c09.cc", [dict(), dict(quoted=1,cols=2), dict(semi=1,cols=2,cell=2), dict(wide=1), dict(blanks=1), dict(big=1)], [dict(cols=5,rows=1), dict(rows=3,cols=3), dict(quoted=1,cols=3), dict(semi=1,cell=2), dict(wide=1), dict(blanks=1), dict(big=1)]), H("c09.cc", [dict(big=2)], [dict(big=2)], max_steps=200000000)])
P("C10", [H("c10.cc", [dict(), dict(big=1), dict(odd=1)], [dict(big=1), dict(odd=1), dict(rows=3,cols=3),dict(rows=2,cols=4)])])
P("C11", [H("c11.cc", [dict(n=5), dict(big=1)], [dict(n=8), dict(big=1)])])
P("C12", [H("c12.cc", [dict(n=8), dict(big=1)], [dict(n=14), dict(big=1)])])
P("C13", [H("c13.cc", [dict(n=3,m=3), dict(n=2,m=3,list=1), dict(big=7), dict(big=17), dict(big=40)], [dict(n=5,m=5), dict(n=4,m=4,list=1), dict(big=3), dict(big=4), dict(big=9), dict(big=17), dict(big=40)])])
P("C14", [H("c14.cc", [dict(n=3), dict(n=3,replay=1), dict(big=20,replay=1)], [dict(n=4), dict(n=5,replay=1), dict(big=40,replay=1)])])
P("C15", [H("c15.cc", [dict(n=3,m=4), dict(big=17)], [dict(n=6,m=6), dict(big=17), dict(big=40)])])
P("C16", [H("c16.cc", [dict(n=5), dict(n=4,sorting=1), dict(big=17), dict(big=20,sorting=1), dict(big=300,sorting=1)], [dict(n=8), dict(n=6,sorting=1), dict(big=100), dict(big=40,sorting=1), dict(big=300,sorting=1)])])
P("C17", [H("c17.cc", [dict(mode=0,n=3), dict(mode=1,n=3), dict(mode=2,n=4), dict(mode=3,n=5)] + [dict(mode=m,big=20) for m in (0,1,2,3)], [dict(mode=m,big=40) for m in (0,1,2,3)] + [dict(mode=0,n=5), dict(mode=1,n=5), dict(mode=2,n=6), dict(mode=3,n=9)])])
P("C18", [H("c18.cc", [dict(n=4), dict(big=20), dict(big=300)], [dict(n=6), dict(big=40), dict(big=300)])])
P("C19", [H("c19.cc", [dict(n=4), dict(big=20)], [dict(n=9), dict(big=70)])])
P("C20", [H("c20.cc", [dict(m=5), dict(big=1)], [dict(m=9), dict(big=1)])])
P("C21", [H("c21.cc", [dict(n=3), dict(n=2,mismatch=1), dict(big=1)], [dict(big=1), dict(n=6), dict(n=4,mismatch=1)])])
P("C22", [H("c22.cc", [dict(n=3), dict(big=1)], [dict(big=1), dict(n=6,steps=4)])])
P("C23", [H("c23.cc", [dict()])])
P("C24", [H("c24.cc", [dict(n=3)], [dict(n=4)], defs=["SRC=%d" % i, "DEPTH=%d" % d], unreached=([] if i != 4 else []) + (["named view", ] if i == 4 else ["stopped early"] if False else [])) for i, d in [(0, 3), (1, 2), (2, 2), (3, 2), (4, 2), (5, 1)]] +
  [H("c24.cc", [dict(n=3)], [dict(n=4)], defs=["SRC=6", "DEPTH=0"], unreached=["^(?!the very).*"])])
P("C25", [H("c25.cc", [dict(n=2), dict(big=1), dict(moved=1,n=2)], [dict(n=4), dict(big=1), dict(moved=1,n=3)])])
P("C26", [H("c26.cc", [dict()])])
P("C27", [H("c27.cc", [dict(n=2, ops=4), dict(big=1)], [dict(n=3, ops=6), dict(big=1)], coro=True)])
_stdio = ["fopen", "fclose", "fseek", "fseeko", "ftell", "ftello", "rewind", "fread", "fwrite", "feof", "ferror", "clearerr", "fflush", "fileno", "fstat", "setvbuf"]
P("C28", [H("c28.cc", [dict(max=2, ops=3, file=3, hops=4)], [dict(max=3, ops=4, file=6, reads=3, hops=6)], env=_stdio)])
P("C29", [H("c29.cc", [dict(n=3, ops=3, lines=5, hops=3)], [dict(n=5, ops=4, lines=8, hops=5)], env=["open", "close", "fstat", "lseek", "madvise", "posix_madvise", "posix_fadvise", "mmap", "munmap"])])
P("C30", [H("c30.cc", [dict(n=4), dict(big=1)], [dict(n=5), dict(big=1)])])
P("C31", [H("c31.cc", [dict(args=4, len=3), dict(args=2, len=5)], [dict(args=5, len=3), dict(args=3, len=5)])])
P("C32", [H("c32.cc", [dict()])])
P("C33", [H("c33.cc", [dict()])])
P("C39", [H("c39.cc", [dict(window=4), dict(full=1, _deadline=100)], [dict(window=8), dict(full=1)], optflags=["-two-entry-phi-node-folding-threshold=200", "-phi-node-folding-threshold=200"], opts=["--no-select-fork"], tables=True)])
P("C38", [H("c38.cc", [dict()], io=True, env=["_ZNSt6chrono3_V212system_clock3nowEv"])])
P("C40", [H("c40.cc", [dict(n=3), dict(big=1)], [dict(n=5), dict(big=1)])])
P("C41", [H("c41.cc", [dict(n=4, sort=4), dict(big=1), dict(big=2)], [dict(n=7, sort=6), dict(big=1), dict(big=2)], max_steps=60000000)])
P("C42", [H("c42.cc", [dict()], io=True)])
P("C36", [H("c36.cc", [dict(mode=0,steps=2,ops=1), dict(mode=1,steps=2), dict(mode=2,shift=34), dict(mode=2,shift=56)], [dict(mode=0,steps=3,ops=1), dict(mode=1,steps=3)])])
P("C37", [H("c37.cc", [dict(mode=0), dict(mode=1)], [dict(mode=0, chains=1, len=3), dict(mode=0, chains=2, len=2), dict(mode=1, ops=4)])])
P("C34", [H("c34.cc", [dict(hw=1,rounds=3,jobs=3,_spurious=2), dict(hw=2,rounds=2,jobs=2,_spurious=1), dict(hw=2,rounds=2,jobs=3), dict(mode=1,hw=2,jobs=2), dict(mode=2,hw=2,rounds=1)],
  [dict(hw=1,rounds=3,jobs=3,_spurious=3), dict(hw=2,rounds=2,jobs=3,_spurious=1), dict(hw=2,rounds=3,jobs=2), dict(hw=3,rounds=1,jobs=2,_preempt=3), dict(mode=1,hw=2,jobs=3), dict(mode=2,hw=2,rounds=2,_spurious=1), dict(mode=2,hw=3,rounds=1,_preempt=3)], threads=True)])
P("C35", [H("c35.cc", [dict(api=a, quit=q, hw=2, jobs=3, pfail=f) for a in (0,1,2,3) for q in (0,1) for f in (0,1)] + [dict(api=a, quit=q, hw=3, jobs=3) for a in (0,1) for q in (0,1)] + [dict(api=a, quit=1, hw=1, jobs=3) for a in (0,1)] + [dict(mode=m, api=a) for m in (1,2) for a in (0,1)] + [dict(mode=m, api=a, hw=3, jobs=4) for m in (1,2) for a in (0,1)],
  [dict(api=a, quit=q, hw=h, jobs=j, pfail=1) for a in (0,1,2,3) for q in (0,1) for h,j in ((2,4),(3,4))] + [dict(mode=m, api=a, hw=h, jobs=4) for m in (1,2) for a in (0,1) for h in (2,3,4)], threads=True),
  H("c35.cc", [dict(api=4, quit=q, hw=1, jobs=4, mod=2) for q in (0,1)] + [dict(api=4, quit=q, hw=2, jobs=3, mod=3, pfail=1) for q in (0,1)],
    [dict(api=4, quit=q, hw=1, jobs=4, mod=m) for q in (0,1) for m in (1,2,3)] + [dict(api=4, quit=q, hw=h, jobs=4, mod=4) for q in (0,1) for h in (2,3)], threads=True, io=True, defs=["DESC"], unreached=["several errors", "busy", "jobs met"])])
P("C43", [H("c43.cc", [dict(mode=0,n=8), dict(mode=0,n=4,pad=8189), dict(mode=0,n=2,pad=65535), dict(mode=1,n=6), dict(mode=1,n=3,pad=8189), dict(mode=1,n=1,pad=65535)], [dict(mode=0,n=40), dict(mode=0,n=8,pad=8187), dict(mode=1,n=9), dict(mode=1,n=5,pad=8188)], io=True, max_steps=40000000)])
P("C45", [H("c45.cc", [dict(mode=0,n=3), dict(mode=1,n=2), dict(mode=2), dict(mode=3,bits=16), dict(mode=4)], [dict(mode=0,n=6), dict(mode=1,n=4), dict(mode=2), dict(mode=3,bits=20), dict(mode=4)], io=True, env=["time", "_ZNSt6chrono3_V212steady_clock3nowEv", "_ZNSt6chrono3_V212system_clock3nowEv"])])
P("C46", [H("c46.cc", [dict(mode=0,n=3), dict(mode=1,ops=3), dict(mode=2)], [dict(mode=0,n=6), dict(mode=1,ops=4), dict(mode=1,ops=3,names=4), dict(mode=2,n=10)], io=True), H("c46.cc", [dict(mode=2,big=260)], [dict(mode=2,big=260)], io=True, max_steps=200000000)])
P("C47", [H("c47.cc", [dict(mode=0), dict(mode=0,each=2), dict(mode=1), dict(mode=2), dict(mode=3)], [dict(mode=0), dict(mode=0,each=2), dict(mode=0,threads=3), dict(mode=1), dict(mode=2,threads=3), dict(mode=3)], threads=True, io=True, unreached=["created after the last print"])])
P("C44", [H("c44.cc", [dict()])])
P("C48", [H("c48.cc", [dict(n=3)], [dict(n=8)], io=True)])
P("C49", [H("c49.cc", [dict()], threads=True, env=["pthread_setname_np", "prctl"])])
# self-tests of the library and thread models (no property of utl)
for _t, _h in (("T01", H("t_lib.cc", [dict(mode=0), dict(mode=1)], unreached=["streams"])), ("T03", H("t_lib.cc", [dict(mode=2)], io=True, defs=["SX_IO_TEST"], unreached=["strings", "containers"])),
               ("T02", H("t_thr.cc", [dict(mode=i) for i in range(7)], threads=True))):
    PROPS[_t] = dict(harnesses=[dict(_h, witness=24)], bounds={}, outside="", assumptions=[])
