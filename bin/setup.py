#!/usr/bin/env python3
"""setup.py: builds everything the checks use, and sees that TLC runs."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "py"))
sys.dont_write_bytecode = True
import vlib

print(vlib.build_recorder())
print(vlib.build_huff())
print(vlib.build_kinds())
print(vlib.build_shim(), vlib.build_shim("sched"))
r = vlib.tlc("ByteCounts", dict(Bytes=2, Regs=1, MaxOps=1, Counted=1, MaxCount=1), invariants=["Yields"])
print("TLC: %d states" % r.distinct)
lines, skipped = vlib.record_miri([(1, "0.1", [("m", "weights", ["threaded 1 000102 2"])])], vlib.scratch())
print("Miri: %s" % (skipped or "runs"))
vlib.cleanup()
