"""Summarise the violations of one check by text (development aid): summ.py Cxx [tier]"""
import os, sys, collections
os.environ["OMP_NUM_THREADS"]="1"; os.environ["OPENBLAS_NUM_THREADS"]="1"
sys.path[:0]=[os.path.dirname(os.path.dirname(os.path.abspath(__file__))), os.environ.get("MC_REPO","/repo")]
from mc import core
import importlib, multiprocessing as mp
core.MAX_VIOL_PER_JOB=10**6
pid=sys.argv[1]; tier=sys.argv[2] if len(sys.argv)>2 else "quick"
m=importlib.import_module("mc.props."+pid.lower())
with mp.Pool(8) as p: res=p.map(core.exec_job,[("mc.props."+pid.lower(),j) for j in m.jobs(tier)],chunksize=1)
c=collections.defaultdict(list)
for r in res:
    for v in r["viol"]: c[v["what"]].append((r["job"],v["details"]))
for k,v in c.items():
    print(len(v),k)
    for job,d in v[:int(os.environ.get("N","4"))]: print("     ",str(job)[:150],str(d)[-700:] if 'traceback' in d else str(d)[:700])
