"""python -m vf.replay FILE   rerun one recorded counterexample on the real code (TorchScript on); exit 1 if it still fails"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)
sys.path.insert(0, ROOT)


def main():
    v = json.load(open(sys.argv[1]))
    import importlib
    from vf import harness as hn
    importlib.import_module("harness." + v["property"].lower())
    hh = [h for h in hn.HARNESSES[v["property"]] if h.name == v["harness"]][0]
    case = [c for c in hh.cases if repr(c) == v["case"]][0]
    st, fails, _ = hn.run_concrete(hh, case, v["env"])
    print(st)
    for f in fails[:10]:
        print("  ", *f)
    return 1 if st == "fail" else 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
