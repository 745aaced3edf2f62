"""prof.py PROP SUBSTR [SECONDS]: run one contract in this process and dump the stack after SECONDS."""
import sys, os, importlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
prop, sub = sys.argv[1:3]
import threading, traceback, time
main = threading.main_thread().ident


def dump(n=int(sys.argv[3]) if len(sys.argv) > 3 else 25):
    time.sleep(n)
    for f in traceback.extract_stack(sys._current_frames()[main]):
        if "terms.py" not in f.filename and "z3" not in f.filename.split("/")[-1]:
            print(f.filename.split("/")[-1], f.lineno, f.name, "::", f.line, flush=True)
    os._exit(1)


threading.Thread(target=dump, daemon=True).start()
sys.setrecursionlimit(20000)
from engine import contract as C
importlib.import_module("contracts.%s" % prop.lower())
for c in C.REG:
    if c.prop == prop and sub in c.name:
        r = C.run_one(c)
        print(c.name, sum(o["ok"] for o in r["obligations"]), len(r["obligations"]), "%.1fs" % r["wall"])
