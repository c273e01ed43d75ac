"""Per-property run plan."""
from . import feed, frames, histories, progress, replicas

# runs per tier; `fresh`: every how many runs one uses a fresh interpreter
PLAN = {
    "C01": dict(quick=2200, thorough=60000), "C02": dict(quick=2600, thorough=60000), "C03": dict(quick=2600, thorough=60000),
    "C04": dict(quick=3000, thorough=60000), "C05": dict(quick=2200, thorough=60000), "C06": dict(quick=640, thorough=16000),
    "C07": dict(quick=640, thorough=16000), "C08": dict(quick=2200, thorough=50000, fresh=220), "C09": dict(quick=2200, thorough=50000, fresh=45),
    "C10": dict(quick=1400, thorough=30000), "C11": dict(quick=2600, thorough=50000), "C12": dict(quick=3600, thorough=60000),
    "C13": dict(quick=3600, thorough=60000), "C14": dict(quick=3600, thorough=60000), "C15": dict(quick=2200, thorough=50000), "C16": dict(quick=2200, thorough=50000),
    "C20": dict(quick=4000, thorough=80000), "C21": dict(quick=5000, thorough=120000), "C22": dict(quick=5000, thorough=120000), "C23": dict(quick=5000, thorough=100000), "C24": dict(quick=5000, thorough=100000), "C25": dict(quick=5000, thorough=100000), "C26": dict(quick=5000, thorough=100000),
    "C17": dict(quick=2200, thorough=50000), "C18": dict(quick=2600, thorough=50000), "C19": dict(quick=3600, thorough=60000),
}
HIST = {"C01", "C02", "C03", "C04", "C05", "C08", "C09", "C15", "C16", "C17", "C18"}
FRAMES = {"C06", "C07"}
FEED = {"C10", "C11", "C12", "C13", "C14", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26"}
replicas.attach()
progress.attach()


def one(prop, seed, i):
    if prop in HIST:
        fr = PLAN[prop].get("fresh")
        if fr and i % fr == fr - 1:
            return histories.one_fresh(prop, seed, i)
        return histories.one(prop, seed, i)
    return (frames if prop in FRAMES else feed).one(prop, seed, i)


def evaluate(scn):
    p = scn["prop"]
    if scn.get("fresh"):
        return histories.evaluate_fresh(scn)
    if p in HIST:
        return histories.evaluate(scn)
    return (frames if p in FRAMES else feed).evaluate(scn)
