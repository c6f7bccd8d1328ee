"""What a check is made of."""
import collections
import json
import time


class Outcome:
    """What one case showed."""

    def __init__(self):
        self.viols = []             # (set of tags, message)
        self.stats = collections.Counter()
        self.sig = None             # identity of what was exercised, None if nothing of interest was
        self.sample = None
        self.skipped = False

    def bad(self, tags, msg):
        self.viols.append((set(tags), str(msg)))


class Check:
    """One property's monitor: makes cases, runs them under observation, judges what was seen."""
    prop = None
    rule = ""
    level = "exploration"
    # which observations count as violations of this property
    tags = None
    stats_doc = {}
    always = {"crash"}

    def mine(self, tags):
        return self.tags is None or bool(set(tags) & (self.tags | self.always))

    def explore(self, base, rng, tier, n):
        """Make one case and run it: (case, outcome)."""
        case = self.gen(rng, tier, n)
        return case, self.run(base, case)

    def gen(self, rng, tier, n):
        raise NotImplementedError

    def run(self, base, case):
        raise NotImplementedError

    def replay(self, base, case):
        return self.run(base, case)


class Mix(Check):
    """One property decided by several monitors, each with its own kind of cases."""
    parts = ()          # (name, weight, class)
    tags = {"mine"}
    always = set()

    def __init__(self):
        self.subs = {n: cls() for n, w, cls in self.parts}

    def explore(self, base, rng, tier, n):
        name = rng.choices([p[0] for p in self.parts], [p[1] for p in self.parts])[0]
        case, out = self.subs[name].explore(base, rng, tier, n)
        return {"part": name, "case": case}, self.wrap(name, out)

    def run(self, base, case):
        return self.wrap(case["part"], self.subs[case["part"]].run(base, case["case"]))

    def wrap(self, name, out):
        sub = self.subs[name]
        out.viols = [(set(t) | ({"mine"} if sub.mine(t) else set()), m) for t, m in out.viols]
        out.stats["part:" + name] += 1
        if out.sig is not None:
            out.sig = (name, out.sig)
        if out.sample is not None:
            out.sample = {"part": name, **out.sample}
        return out
