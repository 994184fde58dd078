from run import Job
COMMON_ASSUMPTIONS = [
 "The executor's semantics of LLVM IR (engine/), Z3's answers, and clang's translation of the sources to IR are trusted; sampled symbolic paths are re-run natively and compared on every run.",
]
ALLOC = ["-DTCMALLOC_INTERNAL_PERCPU_USE_RSEQ=0"]
LOG = ["tcmalloc/internal/logging.cc"]
PERCPU = ["tcmalloc/experiment.cc", "tcmalloc/internal/environment.cc", "tcmalloc/internal/percpu.cc", "tcmalloc/internal/sysinfo.cc", "tcmalloc/internal/util.cc", "tcmalloc/internal/logging.cc", "tcmalloc/internal/mincore.cc"]
RSEQ = ["-DTCMALLOC_INTERNAL_PERCPU_USE_RSEQ=1"]
P256K = ["-DTCMALLOC_INTERNAL_256K_PAGES"]
CHECKS = {}
CHECKS["C20"] = dict(jobs=[
 Job("bitmap", "bitmap.cc", reach=["done"], params=[(i,) for i in range(10)]),
 Job("bitmap256", "bitmap.cc", defs=["-DNBITS=256"], reach=["done"], params=[(i,) for i in range(10)]),
 Job("range_tracker", "range_tracker.cc", srcs=LOG, reach=["done"], params=[(3,)]),
])
CHECKS["C01"] = dict(jobs=[
 Job("e2e_entry", "e2e_entry.cc", srcs="all", defs=RSEQ, rseq=True, reach=["done"], params=[(i,0,2000 if i==4 else 300000,7 if i in (13,17,20) else 9,0) for i in range(21)], tparams=[(i,0,2000 if i==4 else 300000,9,0) for i in range(21)], args=["-fork-leaves"]),
 Job("e2e_threadmode", "e2e_entry.cc", srcs="all", defs=ALLOC, reach=["done"], params=[(0,0,300000,9,0),(12,0,300000,9,0),(8,0,4000,9,0)], tparams=[(i,0,2000 if i==4 else 300000,9,0) for i in range(21)], args=["-fork-leaves"]),
 Job("e2e_sampled", "e2e_entry.cc", srcs="all", defs=ALLOC, reach=["done"], params=[(i,0,300 if i==4 else 20000,3,0,1) for i in range(21)], args=["-fork-leaves"], qtime=60),
 Job("e2e_guarded", "e2e_entry.cc", srcs="all", defs=ALLOC, reach=["done","guarded"], params=[(i,0,100 if i==4 else 600,4,0,2) for i in range(21)], args=["-fork-leaves"], qtime=60),
])

CHECKS["C02"] = dict(jobs=[
 Job("sizemap", "sizemap.cc", srcs="all", defs=ALLOC, reach=["small","large"], params=[(t,p,s,a,1) for t in range(4) for p in (0,1,2) for s in (0,1) for a in (0,)]+[(t,p,0,a,1) for t in (0,3) for p in (3,4) for a in (3,4,6,9,12,13,14)]),
])

CHECKS["C12"] = dict(jobs=[
 Job("filler", "filler.cc", srcs="all", defs=ALLOC, page=P256K, reach=["done"], params=[(2,1,0,0,0,0),(3,1,0,0,0,1),(3,1,0,0,1,1),(1,0,1,1,0,0),(1,0,2,1,0,0),(1,0,1,0,0,0),(2,0,1,0,0,1)], tparams=[(3,1,0,0,0,0),(4,1,0,0,0,1),(5,0,0,0,0,1),(4,1,0,0,1,1),(2,0,1,1,0,0),(2,0,2,1,0,0),(2,0,1,0,0,0),(3,0,1,0,0,1)], qtime=90),
 Job("treat", "filler.cc", srcs="all", defs=ALLOC, page=P256K, reach=["done","treated","collapse","emptied while treated","handed back later","found unbacked"], params=[(1,1,0,0,0,1,9,1),(1,1,0,0,0,1,25,1),(1,1,0,0,0,1,11,1),(1,1,0,0,0,1,31,1),(1,1,0,0,0,1,59,1)], qtime=60),
])

CHECKS["C13"] = dict(jobs=[
 Job("huge", "huge.cc", srcs="all", defs=ALLOC, reach=["done"], params=[(0,2,0,0),(0,4,1,0),(1,2,0,5),(1,4,1,4),(2,2,0,5),(2,3,1,12),(2,3,1,3),(3,2,1,4)], tparams=[(3,2,1,5),(3,3,1,4),(0,3,0,0),(0,5,1,0),(1,3,0,5),(1,5,1,4),(2,3,0,5),(2,4,1,3)], qtime=60),
])

CHECKS["C04"] = dict(jobs=[
 Job("e2e_fail", "e2e_fail.cc", srcs="all", defs=RSEQ, rseq=True, reach=["done"], params=[(0,e) for e in range(21)], args=["-fork-leaves"], qtime=60),
 Job("e2e_oom", "e2e_fail.cc", srcs="all", defs=RSEQ, rseq=True, reach=["done","refused"], params=[(1,0,0,4000,0,2),(1,0,262145,290000,0,3),(1,0,3000000,3030000,0,3),(1,0,900000000,900040000,0,3),(1,7,900000000,900030000,20,2),(1,7,0,5000,14,2),(1,3,0,300000,0,2)], args=["-fork-leaves"], qtime=60),
 Job("e2e_badalign", "e2e_fail.cc", srcs="all", defs=RSEQ, rseq=True, reach=["done"], params=[(2,0)], args=["-fork-leaves"], qtime=60),
 Job("e2e_overflow", "e2e_fail.cc", srcs="all", defs=RSEQ, rseq=True, reach=["done"], params=[(3,0,14,0,0),(3,0,14,1,0),(3,1,14,0,0),(3,2,14,0,0),(3,0,9,0,4),(3,1,9,1,4),(3,2,9,0,4)], tparams=[(3,0,14,0,8),(3,1,14,1,8),(3,2,14,0,8),(3,0,25,0),(3,0,25,1),(3,1,25,0),(3,1,25,1),(3,2,25,0),(3,2,25,1)], args=["-fork-leaves"], qtime=60),
 Job("e2e_refail", "e2e_fail.cc", srcs="all", defs=RSEQ, rseq=True, reach=["done"], params=[(4,0,100)], args=["-fork-leaves"], qtime=60),
])
CHECKS["C03"] = dict(jobs=[
 Job("e2e_calloc", "e2e_zero.cc", srcs="all", defs=RSEQ, rseq=True, reach=["done","recycled"], params=[(0,0,500,1,0,1),(0,1,60,3,1,1),(0,200000,200200,1,0,1),(0,262140,262300,1,1,0),(0,100,110,7000,1,1)], tparams=[(0,0,4000,1,0,1),(0,1,300,3,1,1),(0,200000,300000,1,0,0),(0,262000,263000,1,1,0),(0,1,40,7000,1,1)], args=["-fork-leaves"], qtime=60),
 Job("e2e_realloc", "e2e_zero.cc", srcs="all", defs=RSEQ, rseq=True, reach=["done","moved","in_place"], params=[(1,0,17,0,40,3),(1,20,50,1,50,3),(1,100,164,1000,1280,1),(1,250000,250300,100,120),(1,262143,262145,262143,262145,3),(1,1000,1030,900,1300,3),(1,262145,270000,100,110),(1,5000,5040,262140,262150),(1,262145,262145,262100,300000)],
     tparams=[(1,262130,262146,262130,262146),(1,0,64,0,96,3),(1,0,256,0,256,3),(1,1000,1400,900,1500,3),(1,2040,2060,1,5000,3),(1,250000,290000,100,120),(1,260000,300000,200000,300000),(1,262144,262144,1,600000),(1,16,16,1,9000),(1,9000,9000,1,300000)], qtime=60),
])
CHECKS["C05"] = dict(jobs=[
 Job("e2e_invalid", "e2e_invalid.cc", srcs="all", defs=RSEQ, rseq=True, reach=["allocated","expected-crash"], params=[(0,0,2000,0),(0,300000,330000,0),(1,0,2000,0),(1,300000,330000,0),(1,8,500,1),(2,300000,320000,0,300000),(2,8,500,1,500),(3,300000,330000,0),(3,0,500,1),
   (4,262145,330000,0),(5,0,500,1),(5,262145,270000,1),(6,0,500,1),(7,1,500,1),(10,0,100,1),(10,1000,1010,1),(10,262145,262180,1)], args=["-fork-leaves"], qtime=60),
 Job("e2e_guard", "e2e_invalid.cc", srcs="all", defs=ALLOC, reach=["allocated","guarded","expected-crash","done"], params=[(8,0,9,2,7),(8,15,20,2,7),(8,4090,4097,2,4),(8,8185,8192,2,4)], tparams=[(8,0,9,2,7),(8,0,34,2,15),(8,35,300,2,15),(8,4090,4100,2,31),(8,8100,8192,2,31)], args=["-fork-leaves"], qtime=60),
])
CHECKS["C06"] = dict(jobs=[
 Job("central_arith", "central.cc", srcs="all", defs=ALLOC, reach=["exhausted","done"], params=[(0,1,10,1),(0,11,45,1),(0,46,120,1),(0,1,1,2),(0,2,3,2),(0,4,10,2),(0,11,22,2),(0,23,45,2),(0,14,14,3),(0,30,33,3)], qtime=60),
 Job("central_hist", "central.cc", srcs="all", defs=ALLOC, reach=["done"], params=[(1,c,c,4,3) for c in (1,2,9,17,24)]+[(1,28,28,6,2),(1,29,29,5,3),(1,33,33,6,2),(1,31,31,6,2)], tparams=[(1,c,c,5,3) for c in (1,2,3,4,9,14,17,20,24,26,32)]+[(1,28,28,8,2),(1,29,29,6,3),(1,30,30,7,2),(1,33,33,8,2),(1,31,31,8,2)], qtime=60),
 Job("central_frag", "central.cc", srcs="all", defs=ALLOC, reach=["done"], params=[(2,13,13,2,2)]+[(2,c,c,2,8) for c in (17,20,24,28,29,33)], tparams=[(2,c,c,3,16) for c in (10,12,13,14,17,20,22,24,28,29,32,33)], qtime=60),
 Job("central_runs", "central.cc", srcs="all", defs=ALLOC, reach=["done"], params=[(4,1,1,0,50),(4,2,2,0,50),(4,3,3,0,40)], tparams=[(4,1,1,3,120),(4,2,2,3,200),(4,3,3,3,100),(4,4,4,3,128),(4,9,9,3,51),(4,20,20,3,8)], qtime=60),
 Job("central_mixed", "central.cc", srcs="all", defs=ALLOC, reach=["done"], params=[(5,c,c,3,5,2) for c in (17,20,29)]+[(5,28,28,3,6,3),(5,33,33,3,5,3),(5,31,31,3,4,3),(5,2,2,2,6,3)], tparams=[(5,c,c,3,7,3) for c in (12,14,17,20,24,29)]+[(5,28,28,4,8,3),(5,33,33,3,5,3),(5,1,1,2,10,3)], qtime=60),
 Job("central_foreign", "central.cc", srcs="all", defs=ALLOC, reach=["expected-crash"], params=[(3,1,60)], qtime=60),
])
CHECKS["C07"] = dict(jobs=[
 Job("transfer_unit", "transfer_unit.cc", srcs=LOG, reach=["done","plundered","shrunk","grown"], params=[(3,3,5),(4,2,4)], tparams=[(4,3,6),(5,2,5)], qtime=60),
 Job("transfer_hist", "transfer.cc", srcs="all", defs=ALLOC, reach=["done","plundered","shrunk"], params=[(0,47,4,6,2),(0,45,4,7,2),(0,36,4,5,2),(0,33,3,7,3),(0,28,3,20,3)], qtime=60),
 Job("transfer_resize", "transfer.cc", srcs="all", defs=ALLOC, reach=["done","resized"], params=[(1,47,2)], qtime=60),
 Job("transfer_threads", "transfer.cc", srcs="all", defs=ALLOC, reach=["done"], params=[(2,36,1),(2,47,1)], args=["-max-preempt","1"], qtime=60),
])
CHECKS["C08"] = dict(jobs=[
 Job("thread_hist", "thread_cache.cc", srcs="all", defs=ALLOC, reach=["done","idle"], params=[(0,28,33,3,20),(0,2,20,3,40),(0,40,47,3,6),(0,47,3,3,15)], tparams=[(0,28,33,4,20),(0,2,20,4,40),(0,40,47,4,6),(0,47,3,4,15),(0,1,36,4,60)], qtime=60),
 Job("thread_sizes", "thread_cache.cc", srcs="all", defs=ALLOC, reach=["done"], params=[(2,0,64,3),(2,60,130,3),(2,2040,2056,3)], tparams=[(2,0,64,4),(2,0,512,3),(2,500,4000,3),(2,4000,262144,3)], args=["-fork-leaves"], qtime=60),
 Job("thread_threads", "thread_cache.cc", srcs="all", defs=ALLOC, reach=["done"], params=[(1,36,28,1),(1,47,28,1)], args=["-max-preempt","1"], qtime=60),
 Job("thread_threads2", "thread_cache.cc", srcs="all", defs=ALLOC, reach=["done"], quick=False, params=[(1,36,28,1),(1,24,28,2),(1,47,28,1)], args=["-max-preempt","2"], qtime=60),
])
CHECKS["C11"] = dict(jobs=[
 Job("pagemap", "pagemap.cc", srcs=LOG, reach=["done"], params=[(0,0,64,20),(0,1,8,6),(0,2,6,5),(0,3,6,5),(0,4,8,8),(1,0,5),(1,1,4),(1,2,3),(2,0,300),(2,1,8),(2,2,8),(2,4,20),(3,0,8,20),(3,1,6,5),(3,2,6,5)], tparams=[(0,0,5000,5000),(0,1,5000,5000),(0,2,64,5000),(0,4,4100,4100),(1,0,64),(1,1,64),(1,2,64),(2,1,600),(2,2,600),(3,0,600,9000),(3,2,600,9000)], qtime=60),
])
CHECKS["C27"] = dict(jobs=[
 Job("lists", "lists.cc", srcs=LOG, reach=["done"], params=[(0,4),(1,5)], tparams=[(0,5),(1,7)], qtime=60),
])
CHECKS["C14"] = dict(jobs=[
 Job("pages", "pagealloc.cc", srcs="all", defs=ALLOC, page=P256K, reach=["done"], params=[(0,2,1,2,8),(0,1,6,10,8),(0,3,1,10,8+32),(0,3,8,11,8+16+32+1),(0,3,1,20,8+2+32),(0,4,1,4,8+32),(2,3,1,3,32+64,0,4),(2,2,7,9,32+64+1,0,4)], qtime=60),
 Job("pages8k", "pagealloc.cc", srcs="all", defs=ALLOC, reach=["done"], params=[(0,1,250,260,8),(0,1,1,3,8),(0,3,250,259,8+32)], qtime=60),
 Job("regionset", "region.cc", srcs="all", defs=ALLOC, page=P256K, reach=["done"], params=[(3,1,3,7,18,0,2),(3,1,2,8,9,1,1),(3,2,2,5,16,1,3),(4,2,1,3,5,0,2),(5,1,3,9,9,1,4+2)], tparams=[(4,1,3,5,18,0,2),(5,1,2,4,9,1,3),(4,2,2,5,16,1,3),(5,2,2,7,10,0,2),(6,1,3,8,10,1,4+2)], qtime=60),
 Job("regions", "pagealloc.cc", srcs="all", defs=ALLOC, page=P256K, reach=["done"], params=[(0,3,9,12,8+32,38),(0,2,13,30,8+32,38),(0,2,8*40,8*40+9,8+32+2,38)], qtime=60),
])
CHECKS["C15"] = dict(jobs=[
 Job("rounds", "pagealloc.cc", srcs="all", defs=ALLOC, page=P256K, reach=["done"], params=[(2,3,1,4,32,0,6),(2,3,1,3,32+64+2,0,4),(2,3,2,3,32+128+1,0,4),(2,2,6,9,32+64,0,4),(2,4,1,2,32,0,5)], qtime=60),
 Job("release", "pagealloc.cc", srcs="all", defs=ALLOC, page=P256K, reach=["done"], params=[(0,3,1,9,8+32+128),(0,3,7,10,8+32+128+1),(0,2,9,12,8+32+128,38),(0,4,1,3,8+32+128+2)], qtime=60),
 Job("e2e_release", "e2e_release.cc", srcs="all", defs=RSEQ, rseq=True, reach=["done"], params=[(2,300000,300000,300000,1,1),(3,270000,270000,40000,1,1),(2,2097150,2097154,100000,1,0),(2,1000,1002,40000,1,1)], qtime=60),
])
CHECKS["C17"] = dict(jobs=[
 Job("limits", "pagealloc.cc", srcs="all", defs=ALLOC, page=P256K, reach=["done"], params=[(1,2,6,8,32,0,2),(1,2,6,8,32+64+256,0,2),(1,1,7,10,32+1+256,0,2),(1,1,7,9,32+2+64+256,0,2),(1,1,1,8,32+1,6,2),(1,1,1,8,32+64+256,6,2),(1,2,6,8,32+256,0,2),(1,1,1,8,32+2+256,6,2),(1,2,2,5,32+256+1024+1,0,2),(1,2,2,5,32+256+1024+2,0,2),(1,2,2,5,32+256+1024,0,2)], qtime=60),
])
CHECKS["C16"] = dict(jobs=[
 Job("alloc", "sysalloc.cc", srcs="all", defs=ALLOC, reach=["done","small","large","refused"], params=[(0,3,0,0,0,0,0,0,1,4),(0,3,1,0,0,0,0,0,1,4),(0,2,0,0,0,0,2,0,0,4),(0,2,0,12,26,0,0,0,0),(0,2,2,0,0,0,0,1,1),(0,2,3,0,0,0,0,0,0),(0,2,4,0,0,0,0,0,0),(0,2,5,0,0,0,0,1,0),(0,2,0,0,0,1,0,0,0),(0,2,1,0,0,1,0,0,0),(0,2,0,0,0,1,1,0,0),(0,2,1,0,0,1,1,0,0),(0,1,0,40,63,0,0,0,0),(0,2,0,0,0,0,0,0,1,1),(0,2,2,0,0,0,0,1,0,3),(0,2,0,20,26,0,0,0,0,2),(0,2,5,0,0,0,0,1,0,3)], qtime=60),
 Job("release", "sysalloc.cc", srcs="all", defs=ALLOC, reach=["released","failed","nothing","unlocked"], params=[(1,)], qtime=60),
 Job("collapse", "sysalloc.cc", srcs="all", defs=ALLOC, reach=["done"], params=[(2,)], qtime=60),
])
CHECKS["C19"] = dict(jobs=[
 Job("sampler", "sampling.cc", srcs="all", defs=ALLOC, reach=["sampled","off"], params=[(0,1,1<<40),(0,0,1<<40),(0,512<<10,1<<40),(0,1000,100000)], qtime=60),
 Job("profile", "sampling.cc", srcs="all", defs=ALLOC, reach=["done","peak","allocation profile","guarded sample"], params=[(1,3,0,10,1,0,0,2,3),(1,2,60,70,1,0,1,7,5),(1,4,1020,1027,1,1,0,1,2),(1,3,262143,262146,1,1,1,2,3),(1,3,100,102,1,1,1,3,0),(1,3,30000,30004,65536,0,1,3,3),(1,2,262143,262145,1,0,0,7,1),(1,2,60,64,1,0,0,7,1,1)], qtime=60),
])
CHECKS["C18"] = dict(jobs=[
 Job("pool", "guarded.cc", srcs="all", defs=ALLOC, reach=["done","full"], params=[(0,4,2,3,5,5,3,0,1,0),(0,1,1,2,1,18,0,0,1,1),(0,1,1,2,8170,8192,0,0,1,1),(0,1,1,2,4080,4100,0,0,1,1),(0,1,1,2,19,33,0,0,1,1),(0,3,1,2,0,1,1,1,1,0),(0,4,2,2,5,5,3,0,1,0),(0,2,1,3,5,5,3,0,1,1)], qtime=60),
 Job("rate", "guarded.cc", srcs="all", defs=ALLOC, reach=["guarded","limited","covered","uncovered"], params=[(1,1),(1,524288),(2,)], qtime=60),
])
_REMOTE = [(1,k,r,cpu,0,3) for k in (0,1,2,3,4,5) for r in (6,7,8,9,10) for cpu in (0,1)]
_REMOTE += [(1,11,r,0,0,3) for r in (6,8)]+[(1,r,a,0,0,3) for r in (8,9,10) for a in (0,1)]
_LOCAL = [(1,a,b,0,0,3) for a in range(6) for b in range(a,6)]
CHECKS["C09"] = dict(jobs=[
 Job("slab", "slab.cc", srcs=PERCPU, defs=RSEQ, rseq=True, reach=["done","restarted","pushed","popped","full","empty","batch in","batch out","grown","resized","updated"], params=[(0,2,0,0,2),(0,1,1,0,2),(0,1,1,1,0),(0,2,1,0,0),(0,1,2,1,0)], tparams=[(0,3,0,0,2),(0,2,1,1,2),(0,3,1,0,0),(0,1,3,2,0),(0,4,0,0,0)], qtime=60),
 Job("metadata", "slab.cc", srcs=PERCPU, defs=RSEQ, rseq=True, reach=["done","given back"], params=[(2,16,0,3),(2,20,3,4),(2,24,0,4)], qtime=60),
 Job("slab_threads", "slab.cc", srcs=PERCPU, defs=RSEQ, rseq=True, reach=["done","aborted"], params=_LOCAL+_REMOTE, tparams=[p[:4]+(1,)+p[5:] for p in _LOCAL+_REMOTE], args=["-max-preempt","2"], targs=["-max-preempt","3"], qtime=60),
])
CPUT = [(1,31,20,1<<20,a,b,c,2,0) for a in (0,2,3,4,14) for b in (10,11) for c in (0,1)]+[(1,31,20,1<<20,a,b,0,2,0) for a in (12,13) for b in (3,12,13,14)]
CHECKS["C10"] = dict(jobs=[
 Job("cpu_cache", "cpu_cache.cc", srcs="all", defs=RSEQ, rseq=True, reach=["done","allocated","freed","stolen","resized","drained","unpopulated","slab resized","capacities changed","slab given back","restarted"], params=[
  (0,47,31,1<<20,2,4,0,0,127+128+256),(0,20,1,1<<14,2,12,0,0,127+256),(0,47,31,3<<18,2,3,0,0,127+128+256+512),(0,20,31,40000,2,3,0,0,127+256+512+1024),(0,31,20,1<<20,3,1,0,0,31+256+512+2048),(0,31,20,1<<20,1,3,1,1,127+256),(0,31,20,1<<20,1,3,2,1,127+256),(0,47,20,1<<20,2,2,1,1,32+512+1024),(0,31,20,1<<20,3,2,0,0,2+4096),
 ], qtime=60),
 Job("cpu_cache_threads", "cpu_cache.cc", srcs="all", defs=RSEQ, rseq=True, reach=["done"], params=[p for p in CPUT if p[4] not in (2,3,4,14)]+[(1,31,20,1<<20,14,10,0,1,1),(1,31,20,1<<20,14,11,0,1,1),(1,31,20,1<<20,3,10,0,2,0),(1,31,20,1<<20,3,11,0,2,0),(1,31,20,1<<20,2,11,0,1,1)], tparams=CPUT, args=["-max-preempt","1"], targs=["-max-preempt","2"], qtime=60),
])
CHECKS["C31"] = dict(jobs=[
 Job("threadmode", "stats.cc", srcs="all", defs=ALLOC, reach=["done"], params=[(2,250000,270000,0,3,3),(3,1000,1040,0,2,2),(2,262140,262150,0,3,1),(2,1000,1040,1,3,2),(2,262100,270000,1,3,2),(2,2097100,2105400,0,3,1),(2,1000,1010,0,7,1),(2,2097145,2097160,0,7,1)], qtime=60),
 Job("percpu", "stats.cc", srcs="all", defs=RSEQ, rseq=True, reach=["done"], params=[(2,1000,1040,0,4,3),(2,262130,262150,0,4,1)], qtime=60),
])
TOPO = ["tcmalloc/internal/cache_topology.cc", "tcmalloc/internal/numa.cc"] + PERCPU
CHECKS["C22"] = dict(jobs=[
 Job("lists", "topology.cc", srcs=TOPO, defs=RSEQ, rseq=True, reach=["accepted","rejected"], params=[(0,2,2),(0,1,4),(1,3,2),(1,18,16,15),(1,18,5,16)], qtime=60),
 Job("layout", "topology.cc", srcs=TOPO, defs=RSEQ, rseq=True, reach=["done","aware","unaware"], params=[(2,1,2,1),(2,2,1,1),(3,4,16),(3,3,1),(3,1,2),(4,16,1),(4,1,1),(4,16,0),(4,1,0)], qtime=60),
])
CHECKS["C24"] = dict(jobs=[
 Job("calls", "hooks.cc", srcs="all", defs=ALLOC, reach=["done","sampled","guarded","in place","moved","none left"], params=[(0,1015,1030,0,0,0,14),(0,262140,262146,0,0,0,14),(0,24,34,1,0,0,14),(0,262140,262146,1,0,0,14),(0,24,34,2,0,0,14),(0,24,30,2,0,0,9,1),(0,24,30,2,0,0,9,2),(0,24,30,2,0,0,9,3)], qtime=60),
 Job("calls_percpu", "hooks.cc", srcs="all", defs=RSEQ, rseq=True, reach=["done"], params=[(0,1015,1030,0,0,0,14,0,1),(0,24,34,1,0,0,14,0,1)], qtime=60),
 Job("list", "hooks.cc", srcs="all", defs=ALLOC, reach=["done","full","removed"], params=[(1,4,0,3),(1,3,5,3),(1,3,7,9)], qtime=60),
 Job("list_threads", "hooks.cc", srcs="all", defs=ALLOC, reach=["done"], params=[(2,0),(2,2),(2,6)], args=["-max-preempt","2"], qtime=60),
 Job("pages", "hooks.cc", srcs="all", defs=ALLOC, reach=["done","given back"], params=[(3,262145,262146,4),(3,270335,270338,3),(3,2097150,2097154,3)], qtime=60),
 Job("central", "hooks.cc", srcs="all", defs=ALLOC, reach=["done","flushed"], params=[(4,28,2,20),(4,36,3,6),(4,20,2,34)], qtime=60),
])
