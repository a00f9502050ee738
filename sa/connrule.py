"""Rule `transfer`: every entry point of the connection, on every path of its MIR,
has the events and the post-state of the reference transfer function."""
import time, traceback
import jobs, par, tags, known
from conn import Conn
from findings import Finding, RuleResult

_C = {}


def _work(a):
    key, job = a
    C = _C[key]
    try:
        r = jobs.run(C, job, known.quirks())
        return key, job, r, None
    except LookupError as e:
        return key, job, None, ("anchor", str(e))
    except Exception:
        return key, job, None, ("engine", traceback.format_exc()[-1500:])


def run(P, configs=(("Client", "u16"), ("Server", "u16"), ("Any", "u16")), reps=1, label="", jobset=jobs.all_jobs):
    """configs: (role, pid type)"""
    R = RuleResult("transfer" + label)
    _C.clear()
    work = []
    for role, pid in configs:
        try:
            _C[(role, pid)] = Conn(P, role, pid, reps)
        except LookupError as e:
            R.anchor(f"{role}/{pid}: {e}", set(tags.FIELD_ALL))
            continue
        work += [((role, pid), j) for j in jobset(role)]
    # long jobs first
    heavy = lambda w: -(("Connack" in str(w[1])) * 2 + ("Publish" in str(w[1])) * 2 + (w[1][0] == "recv" and w[1][2] in (1, 2, 3)) * 2 + (w[0][0] == "Any"))
    work.sort(key=heavy)
    for (key, job), got in par.run(_work, work, R):
        name = f"{key[0]}/{key[1]} " + " ".join(str(x) for x in job)
        if isinstance(got, par.Stopped):
            R.undecided.append((name, got.why))
            continue
        key, job, r, exc = got
        e, k = tags.entry_kind(job)
        if exc is not None:
            R.undecided_unit(name, exc[1], tags.scope(job), exc[0] == "anchor")
            continue
        R.units += 1
        R.obligations += r.checks
        R.paths += r.paths
        R.pruned += r.pruned
        R.nev += r.nev
        R.nfld += r.nfld
        R.note(name, r)
        for t in set(r.tainted):
            R.undecided.append((name, t))
        if r.tainted and r.checks == 0:
            R.undecided_unit(name, "no path decided: " + r.tainted[0], tags.scope(job), False)
        for qk, n in r.quirks.items():
            R.known[qk] = R.known.get(qk, 0) + n
        for aspect, text, path, notes in r.bad:
            R.findings.append(Finding(tags.props(job, aspect, notes, text) | ({"C11"} if job[0] == "csend" else set()), f"{e}/{job[1]}/{k}/{aspect}",
                                      f"{name}: {aspect}: {text}", path))
    return R
