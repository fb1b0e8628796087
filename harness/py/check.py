"""A check: models checked by TLC, then records of the real code judged by TLC."""
import glob, json, os, random, re, sys, time
import vlib
from vlib import ToolError

REPLAYS = os.path.join(vlib.BUILD, "replay")


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.rng = random.Random("%s/%d" % (prop, seed))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.models, self.tally, self.samples, self.violations = [], {}, [], []
        self.assumptions = []

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def say(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    def forget(self):
        """Replays of an earlier run say nothing of this one"""
        for p in glob.glob(os.path.join(REPLAYS, self.prop + "-*.json")):
            os.unlink(p)

    # -- models

    def model(self, module, consts, invariants=(), properties=(), **kw):
        r = vlib.tlc(module, consts, invariants=invariants, properties=properties, **kw)
        if r.violated:
            raise ToolError("the model %s violates its own properties:\n%s" % (module, r.out[-3000:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append({"module": module, "constants": {k: str(v) for k, v in consts.items()},
                            "checked": list(invariants) + list(properties), "states": r.distinct,
                            "transitions": r.generated, "depth": r.depth, "wall_s": round(r.wall, 1)})
        self.say("model %s %s: %d states, holds" % (module, consts, r.distinct))

    def breaks(self, module, consts, invariant, **kw):
        """What the model says would break the property does: what is checked can fail"""
        r = vlib.tlc(module, consts, invariants=[invariant], **kw)
        if not r.violated:
            raise ToolError("%s %s does not break %s" % (module, consts, invariant))
        self.models.append({"module": module, "constants": {k: str(v) for k, v in consts.items()},
                            "checked": ["not " + invariant], "states": r.distinct, "transitions": r.generated,
                            "depth": r.depth, "wall_s": round(r.wall, 1)})
        self.say("model %s %s: breaks %s, as it should" % (module, consts, invariant))

    # -- records

    def judge(self, module, records, scenarios, chunk=24 << 20, keep=True):
        """records: JSON lines (bytes); scenarios: id -> what to keep for a replay"""
        part, size, parts = [], 0, []
        for r in records:
            if part and size + len(r) > chunk:
                parts.append(part)
                part, size = [], 0
            part.append(r)
            size += len(r)
        if part:
            parts.append(part)
        for part in parts:
            path = os.path.join(vlib.scratch(), "trace.ndjson")
            with open(path, "wb") as f:
                f.write(b"\n".join(part) + b"\n")
            r = vlib.tlc(module, {"TraceFile": path, "Prop": self.prop}, invariants=["Holds"],
                         heap="12g", timeout=860, cfg_extra="ALIAS Short")
            want = 0
            for line in part:
                d = json.loads(line)
                want += len(d["ev"]) + 1
                for e in d["ev"]:
                    k = "%s %s" % (e["op"], e.get("res", e.get("exit", "")))
                    self.tally[k] = self.tally.get(k, 0) + 1
                    self.events += 1
            if not r.fails and not r.violated and r.distinct != want:
                raise ToolError("%s took %d steps, not the %d recorded" % (module, r.distinct, want))
            if r.violated and not r.fails:
                raise ToolError("a violation without a reason:\n" + r.out[-2000:])
            self.states += r.distinct
            self.transitions += r.generated
            self.traces += len(part)
            by_id = {}
            for f in r.fails:
                by_id.setdefault(f["id"], f)
            for cid in sorted(by_id):
                rec = next(l for l in part if json.loads(l)["id"] == cid)
                self.violation(module, cid, by_id[cid], rec, scenarios.get(cid), keep)
        self.say("%s: %d records, %d events judged, %d violations" %
                 (module, len(records), self.events, len(self.violations)))

    def violation(self, module, cid, fail, record, scenario, keep=True):
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s-%s.json" % (self.prop, re.sub(r"[^A-Za-z0-9_.-]", "_", cid)))
        with open(path if keep else os.devnull, "w") as f:
            json.dump({"property": self.prop, "module": module, "id": cid, "event": fail["ev"], "why": fail["why"],
                       "scenario": scenario, "record": json.loads(record)}, f)
        self.violations.append(path)
        if len(self.violations) <= 5:
            print("  %s, event %s: %s" % (cid, fail["ev"], "; ".join(fail["why"])))
            print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)

    def sample(self, *xs):
        for x in xs:
            s = x if isinstance(x, str) else json.dumps(x)
            self.samples.append(s if len(s) < 700 else s[:700] + "...")

    # -- the end

    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "events_validated": self.events,
               "models": self.models, "events_by_outcome": dict(sorted(self.tally.items())),
               "samples": self.samples[:12]}
        doc = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
               "coverage": cov, "assumptions": self.assumptions,
               "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(vlib.VERIF, "evidence"), exist_ok=True)
        path = os.path.join(vlib.VERIF, "evidence", self.prop + ".json")
        with open(path + ".new", "w") as f:
            json.dump(doc, f, indent=1)
        os.replace(path + ".new", path)
        self.say("%s: %s" % (self.prop, "VIOLATED (%d)" % len(self.violations) if self.violations else "held"))
        return 1 if self.violations else 0
