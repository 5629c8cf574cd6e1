"""What each property's check runs: harness variants (jobs) per property and tier, with their bounds."""
import props
PROPS = props.PROPS
WALL = {"quick": 400, "thorough": 3000}   # seconds a check may take before remaining jobs are skipped (always reported)
_J = {}


def job(prop, name, src, defs="", bounds="", q=1, time=30, workers=2, **kw):
    """q: 1 = in the quick tier too, 0 = thorough only.  defs: list or blank-separated -D arguments."""
    d = defs if isinstance(defs, list) else defs.split()
    j = dict(name=name, src=src, defs=d, bounds=bounds or " ".join(d), q=q, time=time, workers=workers, expect=["end"])
    j.update(kw)
    _J.setdefault(prop, []).append(j)


def jobs(prop, tier):
    out = []
    for j in _J.get(prop, []):
        if tier == "quick" and not j["q"]:
            continue
        j = dict(j)
        if tier == "thorough":
            j["time"] = j.get("time_thorough", j["time"] * 8)
            j["workers"] = max(j["workers"], j.get("workers_thorough", j["workers"]))
        out.append(j)
    return out


from jobs import *  # noqa: registers the jobs
