"""Which families of behaviours decide which property, and how many of them."""
import pipeline

LEVEL = "model_checking"
ASSUMPTIONS = [
    "coordinates and data rows are drawn from a finite dictionary of distinct numbers; agreement is measured in decimal digits",
    "the driver's abstraction of meshes (harness/absmesh.py) is faithful: it maps numbers to tokens and back",
]


class Job:
    def __init__(self, name, gen, quick, thorough, trace="TraceSystem", driver="driver.py", shards=8):
        self.name, self.gen, self.trace, self.driver, self.shards = name, gen, trace, driver, shards
        self.consts = {"quick": quick, "thorough": thorough}

    def run(self, prop, seed, work, tier):
        return pipeline.run_family(self.gen, self.consts[tier], seed, work, prop, self.trace, self.driver, self.shards)


class DesignJob(Job):
    """the closed design model; it says nothing about /repo, only that the specification is sound"""

    def __init__(self, quick, thorough):
        super().__init__("design model", "Design", quick, thorough)

    def run(self, prop, seed, work, tier):
        return pipeline.run_design(self.gen, self.consts[tier], work)


RT = lambda focus: Job("roundtrip", "GenRT", {"NRand": 30, "Focus": focus}, {"NRand": 1200, "Focus": focus})

def EDGE(focus):
    return Job("edge", "GenEdge", {"NRand": 4, "NBig": 0, "Focus": focus}, {"NRand": 120, "NBig": 0, "Focus": focus})


def BIG(focus):
    return Job("big", "GenEdge", {"NRand": 0, "NBig": 1, "Focus": focus}, {"NRand": 0, "NBig": 3, "Focus": focus})


POLY = Job("polygons and polyhedra", "GenPoly", {"NRand": 25}, {"NRand": 800})
UNSUP = Job("unsupported", "GenUnsup", {"NRand": 20}, {"NRand": 800})
VAR = Job("variants", "GenVar", {"NRand": 12}, {"NRand": 100})
HIST = Job("history", "GenHist", {"NRand": 8}, {"NRand": 250})
LAY = Job("layout", "GenLay", {"NRand": 30}, {"NRand": 1000})
API = Job("mesh object", "GenApi", {"NRand": 40}, {"NRand": 1500})
REG = Job("registry", "GenRegistry", {"NRand": 100}, {"NRand": 3000}, "TraceRegistry", "driver_reg.py")
EXT = Job("dispatch", "GenExt", {"NRand": 4}, {"NRand": 80})
SER = Job("series", "GenSeries", {"NRand": 60}, {"NRand": 2000}, "TraceSeries", "driver_series.py")
CLI = Job("command line", "GenCli", {"NRand": 15}, {"NRand": 300})
CUT = Job("cut", "GenCut", {"NRand": 10, "NCut": 40}, {"NRand": 150, "NCut": 80})
CONF = Job("decoded files", "GenConform", {"NRand": 40}, {"NRand": 1500})
VARY = Job("rewritten files", "GenVary", {"NRand": 60}, {"NRand": 500})
FOREIGN = Job("files of other programs", "GenForeign", {"NRand": 1600}, {"NRand": 12000})
DESIGN = DesignJob({"Fault": "any", "MaxSteps": 5}, {"Fault": "any", "MaxSteps": 6})

PLAN = {
    "C01": [RT("geo"), EDGE("geo"), BIG("geo"), POLY, FOREIGN],
    "C02": [RT("data"), EDGE("data"), BIG("data"), POLY, FOREIGN],
    "C03": [RT("tag"), EDGE("tag"), FOREIGN],
    "C04": [RT("all"), UNSUP, LAY, HIST],
    "C05": [UNSUP],
    "C06": [VAR],
    "C07": [REG, EXT],
    "C08": [API],
    "C09": [API],
    "C10": [CLI],
    "C11": [SER],
    "C12": [CUT],
    "C13": [CONF],
    "C14": [VARY, FOREIGN],
    "C15": [HIST, DESIGN],
    "C16": [LAY],
}


def jobs(prop, tier):
    return PLAN[prop]


def bounds(prop, tier):
    return {j.name: j.consts[tier] for j in PLAN[prop]}
NOTES = {}
NOT_APPLICABLE = {}
