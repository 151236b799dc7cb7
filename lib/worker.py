"""python worker.py PID SEED TIER SHARD NSHARDS OUT DEADLINE   (or: PID --replay FILE)"""
import importlib, json, os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import harness  # noqa: E402


MODULES = ("physics", "managers", "readout", "modes", "purity", "memory")


def load(pid):
    for mod in MODULES:
        p = importlib.import_module("props." + mod).PROPS
        if pid in p:
            return p[pid]()
    raise SystemExit(f"unknown property {pid}")


if __name__ == "__main__":
    p = load(sys.argv[1])
    if sys.argv[2] == "--replay":
        d = json.load(open(sys.argv[3]))
        m = harness.Mon()
        v, msg, det = harness.guarded(p, d["case"], m)
        print(json.dumps({"verdict": v, "message": msg, "detail": det, "observed": m.counts})[:6000])
        sys.exit(1 if v == "violation" else 0)
    seed, tier, shard, n, out, dl = int(sys.argv[2]), sys.argv[3], int(sys.argv[4]), int(sys.argv[5]), sys.argv[6], float(sys.argv[7])
    harness.run_shard(p, seed, tier, shard, n, out, dl)
