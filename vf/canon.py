"""Order-insensitive form of a report."""
import json

from .proto import out_json


def jkey(x):
    return json.dumps(x, sort_keys=True)


def canon_report(out, loops="bool", queries=True, concat=True):
    """Sorted list of normalised entries. loops: "bool" keeps only whether there is any; "full" keeps them.
    concat=False: values printed one after the other in sorted order are compared as multisets of characters.
    queries=False drops the query of entries that name an arbitrary end node of the examined query."""
    from .checks_model import canon_struct
    s = set()
    for e in (out_json(out) if isinstance(out, str) else out):
        p = e.get("Property")
        if p == "Cyclic Zone Dependency":
            if loops == "bool":
                s.add(p)
                continue
        elif p == "Response Value":
            if not concat:
                e = dict(e, Expected=sorted(e["Expected"]), Mismatches=[dict(m, Found=sorted(m["Found"])) for m in e["Mismatches"]])
            e = dict(e, Mismatches=sorted(map(jkey, e["Mismatches"])))
        elif p == "Structural Delegation Consistency":
            e = canon_struct(e)
        elif p == "All Aliases":
            e = {"Property": p, "a": sorted([x["Canonical Name"], sorted(x["Aliases"])] for x in e["Canonical Name and their Aliases"])}
        elif p == "Infinite DName Recursion":
            e = dict(e, RRsUsed=sorted(e.get("RRsUsed", {}).values()))
        elif p in ("Response Consistency", "Zero TTL") and not queries:
            e = dict(e)
            e.pop("Query", None)
        v = e.get("Violation")
        for k in ("AllowedDomains", "ExpectedUnder"):
            if isinstance(v, dict) and isinstance(v.get(k), str):
                v = dict(v, **{k: sorted(v[k].strip("[]").split(", "))})
        if v is not None:
            e = dict(e, Violation=v)
        s.add(jkey(e))
    return sorted(s)
