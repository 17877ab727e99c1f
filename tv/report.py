"""Collection of obligations and findings of one check run."""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def site_key(site):
    if site is None:
        return "?"
    return "%s:%s:%s" % (site.file, site.func, site.text)


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.held = 0
        self.unknown = []
        self.findings = {}      # key -> dict
        self.rules = {}         # rule -> [held, unknown, violated]
        self.contexts = set()
        self.functions = set()
        self.lines = set()
        self.callsites = set()
        self.paths = 0
        self.cuts = {}
        self.unmodelled = {}
        self.samples = []

    # ------------------------------------------------------------------
    def absorb(self, outs):
        """account what one exploration analysed"""
        for o in outs:
            self.paths += 1
            self.functions |= o.I.visited
            self.lines |= o.I.lines
            self.callsites |= o.I.callsites
            if o.cut:
                self.cuts[o.cut] = self.cuts.get(o.cut, 0) + 1
            for k, v in o.I.unmodelled.items():
                self.unmodelled[k] = self.unmodelled.get(k, 0) + v

    def ok(self, rule, ctx, sample=None):
        self.held += 1
        self.contexts.add(ctx)
        self.rules.setdefault(rule, [0, 0, 0])[0] += 1
        if sample is not None and len(self.samples) < 12:
            self.samples.append({"rule": rule, "context": ctx, "result": str(sample)[:300]})

    def unk(self, rule, ctx, why=""):
        self.contexts.add(ctx)
        self.rules.setdefault(rule, [0, 0, 0])[1] += 1
        if len(self.unknown) < 200:
            self.unknown.append({"rule": rule, "context": ctx, "why": str(why)[:200]})

    def bad(self, rule, site, msg, ctx, key=None):
        self.contexts.add(ctx)
        self.rules.setdefault(rule, [0, 0, 0])[2] += 1
        k = "%s|%s" % (rule, key if key is not None else site_key(site))
        f = self.findings.get(k)
        if f is None:
            self.findings[k] = {"key": k, "rule": rule, "message": str(msg)[:600], "context": ctx, "count": 1,
                                "where": None if site is None else
                                {"file": site.file, "line": site.line, "function": site.func, "construct": site.text}}
        else:
            f["count"] += 1

    # ------------------------------------------------------------------
    def finish(self, what, rule_text):
        known = load_known(self.prop)
        new, listed = [], []
        for k, f in sorted(self.findings.items()):
            e = next((e for e in known if k.startswith(e["key"])), None)
            (listed if e else new).append((f, e))
        evd = os.environ.get("TV_EVIDENCE") or os.path.join(VERIF, "evidence")
        os.makedirs(evd, exist_ok=True)
        decided = self.held + sum(v[2] for v in self.rules.values())
        und = sum(v[1] for v in self.rules.values())
        ev = {
            "property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
            "coverage": {
                "explanation": what,
                "rule": rule_text,
                "contexts": len(self.contexts),
                "abstract_paths": self.paths,
                "functions_analysed": len(self.functions),
                "call_sites_analysed": len(self.callsites),
                "obligations": decided + und,
                "discharged": self.held,
                "undecided": und,
                "per_rule_held_undecided_violated": self.rules,
                "undecided_detail": self.unknown[:40],
                "cut_paths": self.cuts,
                "unmodelled_operations": self.unmodelled,
                "functions": sorted(self.functions)[:400],
                "samples": self.samples,
                "findings": [f for f, _ in new + listed],
            },
            "assumptions": [
                "torch operations behave as modelled in tv/ops.py and tv/torchops.py (shape, dtype, device, aliasing and algebra rules of PyTorch)",
                "an undecided obligation is counted above and is not reported as a violation",
            ],
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(new),
        }
        path = os.path.join(evd, self.prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(path + ".tmp", path)
        for f, e in listed:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, e["what"]))
        print("%s: %d contexts, %d paths, %d functions, %d obligations held, %d undecided, %d violations, %.1fs" % (
            self.prop, len(self.contexts), self.paths, len(self.functions), self.held, und, len(new), time.time() - self.t0))
        if new:
            rp = os.path.join(evd, self.prop + ".violation.json")
            with open(rp, "w") as f:
                json.dump([x for x, _ in new], f, indent=1, default=str)
            for f, _ in new:
                w = f["where"]
                print("  [%s] %s\n      at %s\n      context: %s" % (
                    f["rule"], f["message"], "%s:%s in %s: %s" % (w["file"], w["line"], w["function"], w["construct"]) if w else f["key"], f["context"]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        if decided == 0:
            print("analysis broken: no obligation was decided", file=sys.stderr)
            return 2
        return 0


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [e for e in json.load(f)["findings"] if e["property"] == prop]
