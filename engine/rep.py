"""What a rule reports: obligations that were decided, and violations."""


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.obligations = []     # {rule, where, ok, detail}
        self.violations = []
        self.notes = []
        self.analysed = set()
        self.counts = {}
        self.listed = set()

    def add(self, rule, where, ok, detail):
        k = (rule, where, ok, detail)
        self.counts["decisions"] = self.counts.get("decisions", 0) + 1
        if k not in self.listed:
            self.listed.add(k)
            self.obligations.append({"rule": rule, "where": where, "ok": ok, "detail": detail})

    def ok(self, rule, where, detail=""):
        self.add(rule, where, True, detail)

    def bad(self, rule, key, where, detail, path=None):
        """key identifies the violation without line numbers."""
        v = {"rule": rule, "key": "%s/%s" % (rule, key), "where": where, "detail": detail}
        if path:
            v["path"] = path
        if not any(x["key"] == v["key"] and x["where"] == where for x in self.violations):
            self.violations.append(v)
        self.add(rule, where, False, detail)

    def check(self, cond, rule, key, where, detail, path=None):
        if cond:
            self.ok(rule, where, detail)
        else:
            self.bad(rule, key, where, detail, path)
        return cond

    def saw(self, *bodies):
        for b in bodies:
            self.analysed.add(b if isinstance(b, str) else b.path)

    def saw_graph(self, an):
        for f in an.g.frames:
            if f.body.krate in ("stuart", "stuart_core"):
                self.analysed.add(f.body.path)
        self.counts["program_points"] = self.counts.get("program_points", 0) + len(an.g.nodes)
        self.counts["inlined_frames"] = self.counts.get("inlined_frames", 0) + len(an.g.frames)
