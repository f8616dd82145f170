class Report:
    """what one run covered and found"""

    def __init__(self, rule, explanation):
        self.findings = []  # (key, message, site, function, path lines)
        self.cov = {"rule": rule, "explanation": explanation}
        self.assumptions = []
