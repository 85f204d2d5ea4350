"""Result of one check: obligations, violations, known findings, evidence."""
import json, os, time
import facts


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.obl = []          # (rule, instance)
        self.bad = []          # (key, message)
        self.rules = {}
        self.stats = {}
        self.samples = []
        self.assume = []
        self.t0 = time.time()

    def rule(self, name, text, floor=1):
        """A rule and the least number of instances it must have (fail closed)."""
        self.rules[name] = {"text": text, "floor": floor, "n": 0}

    def ok(self, rule, inst):
        self.rules[rule]["n"] += 1
        self.obl.append((rule, inst, True))

    def fail(self, rule, key, msg):
        """key: stable identification of the construct, free of line numbers"""
        self.rules[rule]["n"] += 1
        self.obl.append((rule, key, False))
        if (rule + "|" + key) not in [k for k, _ in self.bad]:
            self.bad.append((rule + "|" + key, msg))

    def check(self, rule, cond, key, msg, inst=None):
        if cond:
            self.ok(rule, inst or key)
        else:
            self.fail(rule, key, msg)
        return cond

    def finish_floors(self):
        for n, r in self.rules.items():
            if r["n"] < r["floor"]:
                self.bad.append(("floor|" + n,
                                 "rule '%s' found %d instances, fewer than the %d confirmed: "
                                 "what it is about is no longer recognised" % (n, r["n"], r["floor"])))


def known():
    p = os.path.join(facts.VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]
