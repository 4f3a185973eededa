import importlib, json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("VERIF_REPO", "/repo")
sys.path.insert(0, os.environ["VERIF_REPO"])
import warnings
warnings.filterwarnings("ignore")
import common


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    for a in sys.argv[2:]:
        if a in ("quick", "thorough"):
            tier = a
        elif a.startswith("--replay="):
            replay = a.split("=", 1)[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module(pid.lower())
    chk = common.Chk(mod, tier, seed)
    try:
        if replay:
            case = json.load(open(replay))["case"]
            case.pop("id", None)
            chk.explore([case], procs=1)
        else:
            if hasattr(mod, "mc"):
                mod.mc(chk)
            chk.explore(mod.cases(chk))
        return chk.finish()
    except common.Machinery as e:
        print("MACHINERY ERROR", e)
        return 2


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
