#!/usr/bin/env python3
"""replay.py REPLAY: does again, with the code in /repo as it is now, what a
violation was found with, has TLC judge it, and says what comes of it.
Exit 0: no violation now; 1: violation. With --record the record kept in the
replay is judged instead of a new one."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "py"))
sys.dont_write_bytecode = True
import vlib
from check import Check


def again(r):
    s = r["scenario"]
    if r["module"] != "TraceCli":
        if r["module"] == "Sharing":
            s = [s[0], "u8", ["comp 00"]]
        print("scenario: %s %s" % (s[0], s[1]))
        print("  " + "\n  ".join(l if len(l) < 300 else l[:300] + "..." for l in s[2]))
        if r["property"] != "C25":
            return vlib.record(vlib.build_recorder(), [s], vlib.scratch())
        # whether threads meet is up to chance: again and again, eight at a time
        rec, why = vlib.build_sharing()
        if not rec:
            print("VIOLATION property=C25: " + why)
            sys.exit(1)
        many = [["%s-again%d" % (s[0].rsplit(".", 1)[0], k), s[1], s[2]] for k in range(64)]
        if "thread" in s[2]:
            return vlib.by_thread(vlib.record(rec, many, vlib.scratch()), many)[0]
        return vlib.record(rec, many, vlib.scratch(), env={"REC_TOGETHER": "8"})
    from cli import Bench, Session, FILE, FIFO
    bench = Bench()
    try:
        files = [(p, (k, bytes.fromhex(x)) if k in (FILE, FIFO) else (k, x)) for p, k, x in s["files"]]
        session = Session(bench, r["id"], files, s["cwd"])
        session.of = r["record"]["of"]
        for run in s["runs"]:
            if "together" in run:
                session.together(run["together"], run["stops"])
                print("together: %s" % ascii(run["together"]), run["stops"], [e.get("runs") and [r["exit"] for r in e["runs"]] for e in session.events[-1:]])
                continue
            if "raw" in run:
                session.raw(run["raw"], run["answer"])
                print("words: %s -> %s" % (ascii(run["raw"]), session.events[-1].get("exit")))
                continue
            session.run(**run["kw"])
            print("run: %s -> %s" % (ascii(" ".join(run["argv"]))[:200], {k: v for k, v in session.script[-1].items() if k in ("rc", "stderr", "env", "answer")}))
        out = [json.dumps(session.record()).encode()]
        session.close()
        return out
    finally:
        bench.close()


def main():
    with open(sys.argv[1]) as f:
        r = json.load(f)
    ck = Check(r["property"], "quick", 1)
    print("%s, event %s: %s" % (r["id"], r["event"], "; ".join(r["why"])))
    try:
        records = [json.dumps(r["record"]).encode()] if "--record" in sys.argv else again(r)
        ck.judge(r["module"], records, {r["id"]: r["scenario"]}, keep=False)
    finally:
        vlib.cleanup()
    sys.exit(1 if ck.violations else 0)


main()
