"""Which types hold located parts."""
LOCATED = "vimwiki_core::lang::elements::utils::Located"


class HasLocated:
    def __init__(self, P):
        self.P = P
        self.memo = {}

    def __call__(self, ty, seen=()):
        P = self.P
        t = P.t(ty)
        if t["k"] == "adt" and t["def"] == LOCATED:
            return True
        if t["s"] in seen:
            return False
        for a in t.get("args", []):
            if self(a, seen + (t["s"],)):
                return True
        if t["k"] == "adt" and t["def"] in P.adts:
            if t["def"] in self.memo:
                return self.memo[t["def"]]
            self.memo[t["def"]] = False
            r = any(self(f["ty"], seen + (t["s"],)) for v in P.adts[t["def"]]["variants"] for f in v["fields"])
            self.memo[t["def"]] = r
            return r
        return False
