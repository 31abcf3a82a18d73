"""Search seeds vs explicit replay of their recorded decisions: must be identical."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B, check as C
exe = B.build([sys.argv[1]])[sys.argv[1]]
n = int(sys.argv[3]) if len(sys.argv) > 3 else 40
with C.Scratch() as sc:
    rp = C.Replayer(exe, sc)
    bad = 0
    for seed in range(1, n + 1):
        a = C.one(exe, sys.argv[2], seed, sc)
        b = rp.run(C.text_of(sys.argv[2], a["ops"], a["devs"]))
        if (a["hash"], a["verdict"], a["cls"]) != (b["hash"], b["verdict"], b["cls"]):
            bad += 1
            print("seed", seed, a["verdict"], a["cls"], a["points"], len(a["devs"]), "->", b["verdict"], b["cls"], b["points"])
    print(sys.argv[2], n, "seeds,", bad, "differ")
