"""prof.py CONTRACT_FILE HARNESS SECONDS: profile of the verification of one contract"""
import sys,time,cProfile,pstats,signal
sys.path.insert(0,'/verif')
from vf import driver as D
eng,d=D.build_engine(sys.argv[1],sys.argv[2])
class Stop(Exception): pass
def h(*a): raise Stop()
signal.signal(signal.SIGALRM,h); signal.alarm(int(sys.argv[3]))
pr=cProfile.Profile(); pr.enable()
try: print(eng.run_harness(sys.argv[2])['paths'])
except BaseException as e: print(type(e),e)
pr.disable()
print('obligations',len(eng.obligations),'worklists',[len(w) for w in eng.worklists])
pstats.Stats(pr).sort_stats('cumtime').print_stats(40)
