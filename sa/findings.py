class Finding:
    def __init__(self, props, key, text, path="", where=""):
        self.props, self.key, self.text, self.path, self.where = set(props), key, text, path, where


class RuleResult:
    def __init__(self, name):
        self.name = name
        self.findings = []
        self.units = self.obligations = self.paths = self.pruned = self.nev = self.nfld = 0
        self.undecided = []
        self.failed = []          # (unit, why, props) not analysable at all
        self.known = {}
        self.samples = []
        self.table = []           # (unit, paths, obligations)
        self.extra = {}
        self.floor, self.floor_props = 1, set()

    def note(self, name, r):
        self.table.append((name, r.paths, r.checks, sorted(r.notes)))

    def undecided_unit(self, name, why, props, anchor):
        self.failed.append((name, why, set(props), anchor))

    def anchor(self, why, props):
        self.failed.append(("anchor", why, set(props), True))

    def bad(self, props, key, text, path=""):
        if isinstance(props, str):
            props = props.split()
        self.findings.append(Finding(props, key, text, path))
