"""What a rule hands back: obligations it discharged and findings (constructs that break the property)."""


class Finding:
    def __init__(self, rule, construct, detail, where='', path=None):
        self.rule = rule            # which rule of the property
        self.construct = construct  # the function / call site (no line numbers: identifies the finding)
        self.detail = detail
        self.where = where          # file:line, for the reader
        self.path = path or []

    @property
    def key(self):
        return '%s|%s|%s' % (self.rule, self.construct, self.detail)


class Result:
    def __init__(self):
        self.findings = []
        self.obligations = []       # (rule, construct, what was established)
        self.notes = []
        self.assumptions = []
        self.cov = {}
        self.floors = []            # (what, got, least)

    def ok(self, rule, construct, what):
        self.obligations.append((rule, construct, what))

    def bad(self, rule, construct, detail, where='', path=None):
        self.findings.append(Finding(rule, construct, detail, where, path))

    def need(self, what, got, least=1):
        """an anchor the analysis must have seen; fewer means it has nothing to say"""
        self.floors.append((what, got, least))

    def decide(self, cond, rule, construct, what, detail=None, where=''):
        if cond:
            self.ok(rule, construct, what)
        else:
            self.bad(rule, construct, detail or ('not established: ' + what), where)
        return cond


class NoAnswer(Exception):
    pass
