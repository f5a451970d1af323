import sys, os, argparse, importlib, traceback, time
sys.setrecursionlimit(12000)
import threading
threading.stack_size(512 * 1024 * 1024)
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    from .oblig import Check
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module(f"sa.checks.{a.pid.lower()}")
    chk = Check(a.pid, a.tier, seed)
    res = []
    def go():
        try: mod.run(chk)
        except Exception:
            traceback.print_exc(); res.append(2)
        if not res: res.append(0)
    t = threading.Thread(target=go); t.start()
    if a.tier == "quick":
        limit = float(os.environ.get("VERIF_LIMIT", 780)); t0 = time.monotonic()
        while t.is_alive() and (left := limit - (time.monotonic() - t0)) > 0:
            t.join(min(left, 5))
            # a violation is an answer: do not go on for long after one
            if time.monotonic() - t0 > limit / 3 and a.pid != "C14" and any(o[2] == "violated" for o in list(chk.obl)): break
    else: t.join()
    if t.is_alive():      # answer with what has been found so far
        res.insert(0, 0); chk.undecided("analysis", "remaining obligations", "time limit")
    if res and res[0] == 2: chk.undecided("analysis", "whole check", "analysis error")
    for _ in range(20):
        try: return chk.finish()
        except RuntimeError: time.sleep(0.2)      # the analysis is still adding to it
    return chk.finish()
if __name__ == "__main__":
    rc = main(); sys.stdout.flush(); os._exit(rc)
