"""Which suites, clauses and design models decide each property."""


def F(clauses, **kw):
    d = {"name": "filter", "trace": "TraceFilter", "clauses": clauses}
    d.update(kw)
    return d


def S(clauses=None, **kw):
    d = {"name": "smooth", "trace": "TraceSmoother", "clauses": clauses}
    d.update(kw)
    return d


def G(clauses=None, **kw):
    d = {"name": "gauss", "trace": "TraceGauss", "clauses": clauses, "conf": ["pure", "ext"]}
    d.update(kw)
    return d


def L(filters, quick=None, thorough=None):
    """exact laws of filter runs (MCFilterLaw), for these filters"""
    f = "= {%s}" % ", ".join('"%s"' % x for x in filters.split())
    return ("MCFilterLaw", {"quick": dict({"Filters": f}, **(quick or {})),
                            "thorough": dict({"Filters": f}, **(thorough or {}))})


def K(kinds):
    """Kalman recursions against the batch law (MCKalman)"""
    return ("MCKalman", {"Kinds": "= {%s}" % ", ".join('"%s"' % x for x in kinds.split())})


def M(filters, invariants):
    """the trajectory state machine (MCMachine)"""
    return ("MCMachine", {"Filters": "= {%s}" % ", ".join('"%s"' % x for x in filters.split()),
                          "INVARIANTS": invariants})


ALLF = "pf apf sir pfy cpf cpfas csiras cpfyas"


def B(invariants):
    """exact laws of the smoothers (MCSmootherLaw)"""
    return ("MCSmootherLaw", {"INVARIANTS": invariants})


PROPS = {
    "C01": {"suites": [F(["sample", "best", "counts", "unbiased"])], "mc": [("MCResampling",)]},
    "C02": {"suites": [F(None)], "mc": [M("pf", "WeightsMean Genealogy"), L("pf")]},
    "C03": {"suites": [F(["trigger", "neff", "identity", "ret", "counts"])], "mc": [L("pf", {"Thresholds": "<- ThrT", "Missings": "= {1}"})]},
    "C04": {"suites": [F(["finite", "weights", "normalised", "offset"])], "mc": [M(ALLF, "WeightsSane NoDeadParents")]},
    "C05": {"suites": [F(["history", "len", "parent", "particles", "init", "ref", "identity", "source", "smooth"])], "mc": [M(ALLF, "Genealogy WeightsMean")]},
    "C06": {"suites": [F(None)], "mc": [M("apf", "WeightsMean"), L("apf")]},
    "C07": {"suites": [F(None)], "mc": [M("sir csiras", "WeightsMean"), L("sir")]},
    "C08": {"suites": [F(None)], "mc": [M("cpf cpfas csiras cpfyas", "ReferenceKept ReferenceLineage WeightsMean"), L("cpf cpfas csiras cpfyas")]},
    "C09": {"suites": [F(None)], "mc": [M("pfy cpfyas", "WeightsMean ReferenceKept"), L("pfy cpfyas")]},
    "C10": {"suites": [F(["input", "noise", "weights", "calls", "len", "source", "ref", "init", "smooth.data"]), S(["calls", "signals"])], "schedules": "Schedules", "mc": [M(ALLF, "Genealogy WeightsMean NoDeadParents")]},
    "C16": {"suites": [{"name": "sim", "trace": "TraceSimulator", "clauses": None}]},
    "C11": {"suites": [S()], "mc": [B("Backward")]},
    "C12": {"suites": [S()], "mc": [B("Rejection")]},
    "C13": {"suites": [S()], "mc": [B("Metropolis")]},
    "C14": {"suites": [S(), G(["moves"], conf=["pure"])], "mc": [B("Mhips MhipsRed Mhbp")]},
    "C15": {"suites": [S()], "mc": [M(ALLF, "Genealogy")]},
    "C17": {"suites": [G()], "mc": [K("ltv")]},
    "C18": {"suites": [G()]},
    "C19": {"suites": [G()], "mc": [K("mix")]},
    "C20": {"suites": [G()], "mc": [K("mix")]},
    "C21": {"suites": [G()], "mc": [K("hier")]},
    "C22": {"suites": [G(["smooth", "moves"])], "mc": [K("mix hier")]},
    "C23": {"suites": [{"name": "em", "trace": "TraceEM", "clauses": None}], "mc": [("MCEM", {"INVARIANTS": "Inequality"})]},
    "C24": {"suites": [G()], "mc": [("MCEM", {"INVARIANTS": "Inequality"})]},
    "C25": {"suites": [{"name": "em", "trace": "TraceEM", "clauses": None}], "mc": [("MCEM",)]},
    "C26": {"suites": [{"name": "utils", "trace": "TraceUtils", "clauses": None, "conf": ["pure", "ext"]}], "mc": [K("ltv mix")]},
    "C27": {"suites": [{"name": "instr", "trace": "TraceInstr", "clauses": None}]},
    "C29": {"suites": [{"name": "em", "trace": "TraceEM", "clauses": None}]},
    "C30": {"suites": [{"name": "runs", "trace": "TraceRuns", "clauses": None}], "schedules": "Interleave"},
    "C28": {"suites": [{"name": "pdf", "trace": "TracePdf", "clauses": None}], "mc": [("MCPdf",)]},
}
