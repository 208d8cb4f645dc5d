"""C17-C19: what the loader makes of zone files."""
import copy, json, os, random, re, shutil, subprocess, tempfile, threading, time, traceback
from collections import Counter

from . import gen as G
from . import model as M
from . import present as P
from . import run as R
from .model import labels, text, under
from .proto import out_json
from .run import Check, Skip, Violation
from .shrink import shrink

ODD = ["in", "ch", "a", "ns", "mx", "soa", "ds", "txt", "300", "0", "cname", "ptr", "aaaa", "spf", "hs", "_tcp", "a-b",
       "x\\.y", "p\\(q", "-1", "+5", "ttl", "origin", "any"]


def rename_labels(r, case, count):
    """Consistently renames some labels of a system to odd looking ones."""
    used = sorted({l for z in case["zones"] for rec in z["recs"] for l in labels(rec[0]) if l != "*"} - {"t", "u", "v"})
    if not used:
        return
    mp = {}
    for l in used:
        if r.random() < count:
            o = r.choice(ODD)
            if o not in mp.values() and o not in used:
                mp[l] = o

    def f(n):
        return text(tuple(mp.get(l, l) for l in labels(n)))
    case["tops"] = [f(t) for t in case["tops"]]
    for z in case["zones"]:
        z["ns"], z["origin"] = f(z["ns"]), f(z["origin"])
        for rec in z["recs"]:
            rec[0] = f(rec[0])
            if rec[1] in P.NAME_TYPES:
                ts = P.tokens(rec[3])
                ts[-1] = f(ts[-1])
                rec[3] = " ".join(ts)


def extra_data(r, t, origin):
    if t == "SRV":
        return "%d 5 80 h.%s" % (r.randint(0, 3), origin if origin != "." else "")
    if t == "PTR":
        return "h%d.%s" % (r.randint(0, 3), origin if origin != "." else "")
    if t == "DS":
        return "%d 8 2 abcdef0123" % r.randint(1, 9)
    if t in ("TXT", "SPF"):
        return r.choice(['"v=spf1 -all"', '"a" "b c"', '"x ; y"', '"(p"', '"q)"', 'plain words', '""', '"$TTL 5" z', '"a\tb"',
                         '"@"', '"cname"', 'cname a', '"%d"' % r.randint(0, 5), 'in 300 a'])
    if t == "RRSIG":
        return "a 8 3 300 20300101000000 20200101000000 5 t. ab%d==" % r.randint(0, 9)
    if t == "NSEC":
        return "z.t. a ns rrsig nsec"
    return "1.0.0.9"


EXTRA = ["SRV", "PTR", "DS", "TXT", "SPF", "RRSIG", "NSEC"]


def gen_records(r, odd=0.5, extra=True, K=None):
    case = G.gen_system(r, K or G.knobs(children=(0, 1, 1, 2), servers=(1, 1, 2), ttls=(0, 300, 300, 60, 256, 65536, 2147483647)))
    case.pop("_names")
    for z in case["zones"]:
        for rec in z["recs"]:
            if rec[1] == "SOA" and r.random() < 0.3:
                rec[2] = 3600
    if extra:
        for z in case["zones"]:
            for _ in range(r.choice([0, 0, 1, 2, 3])):
                t = r.choice(EXTRA)
                own = r.choice([x[0] for x in z["recs"]])
                if r.random() < 0.4:
                    own = G.child(r.choice(["s1", "s2", "*"]), z["origin"])
                z["recs"].insert(r.randint(1, len(z["recs"])), [own, t, r.choice([0, 300, 60]), extra_data(r, t, z["origin"])])
            z["recs"] = G.sanitize(z["recs"], z["origin"])
    if r.random() < odd:
        rename_labels(r, case, 0.5)
        for z in case["zones"]:
            z["recs"] = G.sanitize(z["recs"], z["origin"])
    return case


def directive_items(r, z, items):
    """Inserts $ORIGIN, $TTL, blank and comment lines."""
    o = labels(z["origin"])
    names = [labels(x[0]) for x in z["recs"]]
    out = []
    for k, it in enumerate(items):
        first = k == 0
        if r.random() < 0.12:
            x = r.random()
            if x < 0.35:
                n = r.choice(names)
                n = n[:r.randint(0, len(n))]
            elif x < 0.6:
                n = o
            elif x < 0.75:
                n = ()
            elif x < 0.9:
                n = r.choice(names)
            else:
                n = labels("other.zone.")
            out.append({"k": "origin", "name": text(n), "sty": P.rand_style(r, 0.7)})
        if r.random() < 0.12:
            out.append({"k": "ttl", "v": r.choice([0, 300, 300, 60, 65536, 2147483647]), "sty": P.rand_style(r, 0.5)})
        if r.random() < 0.15:
            out.append({"k": "blank", "text": r.choice(["", " ", "\t", "; only a comment", "  ; indented A 1.2.3.4", ";",
                                                        "   \t ", "; \"quote", "; (("])})
        if r.random() < 0.002:
            # a large file
            out.append({"k": "blank", "text": r.choice(["; " + "long " * 1000, "\n" * 4090, ";" + "x" * 65000, "; pad\n" * 700 + ";"])})
        out.append(it)
    for it in out:
        if it["k"] in ("origin", "ttl"):
            it["sty"].pop("par", None)
    if r.random() < 0.2:
        out.append({"k": "blank", "text": r.choice(["", "  ", "; end", "\t"])})
    return out


def dump_of(res):
    """Loaded zones: {(server, origin): multiset of (owner, type, ttl, data)}, checked for consistency."""
    out = {}
    for z in res["zones"]:
        c = Counter()
        for name, rrs in z["nodes"]:
            for own, t, ttl, d in rrs:
                if own != name:
                    raise Violation("record of %s is stored at %s" % (own, name))
                c[(own, t, ttl, d)] += 1
        k = (z["ns"], z["origin"])
        if k in out:
            raise Violation("two zones %s" % (k,))
        out[k] = c
    return out


def want_dump(zones):
    return {(z["ns"].lower(), text(labels(z["origin"]))): Counter((text(labels(n)), t, ttl, " ".join(P.tokens(d)).lower()) for n, t, ttl, d in z["recs"])
            for z in zones}


def compare_dumps(want, got):
    for k in sorted(set(want) | set(got)):
        w, g = want.get(k), got.get(k)
        if w is None or g is None:
            raise Violation("zone %s: %s" % (k, "not loaded" if g is None else "unexpected"))
        if w != g:
            raise Violation("zone %s differs\n missing: %s\n unexpected: %s"
                            % (k, sorted((w - g).elements())[:5], sorted((g - w).elements())[:5]))


def type_counts(zones):
    c = Counter()
    for z in zones:
        for n, t, ttl, d in z["recs"]:
            c[t] += 1
            if n.startswith("*."):
                c["Wildcard"] += 1
    return c


def default_jobs():
    return [None]


def small_enough(zones, tops):
    """Whether the default job on all names stays small."""
    from .checks_model import analyse, system_of
    try:
        analyse(system_of({"zones": zones, "tops": tops}),
                {"Domain": ".", "SubDomain": True, "Properties": [{"PropertyName": "Hops", "Value": 2}]})
    except Skip:
        return False
    return True


def report(res):
    return sorted(json.dumps(x, sort_keys=True) for x in out_json(res["out"]))


class C17(Check):
    id = "C17"
    rule = ("random systems (all 14 types, odd labels) written in a random presentation: $ORIGIN/$TTL anywhere, relative, @ and "
            "omitted names, omitted or reordered TTL and class, letter case, parentheses over lines, comments, blank lines, tabs, "
            "CRLF, missing final newline, metadata origin; the loaded records, counts and the default report are compared with "
            "those of the plain form; non-trivial: at least 4 records and at least 3 kinds of presentation features")
    n_quick, n_thorough = 4500, 80000

    def gen(self, r, i):
        case = gen_records(r)
        for z in case["zones"]:
            wild = r.choice([0.3, 1.0, 1.0, 1.5])
            items = [{"k": "rec", "rec": rec, "sty": P.rand_style(r, wild)} for rec in z["recs"]]
            if r.random() < 0.3:
                # one owner after the other, so that owners can be omitted
                head, rest = items[:1], items[1:]
                rest.sort(key=lambda it: it["rec"][0])
                items = head + rest
            z["items"] = directive_items(r, z, items)
            if r.random() < 0.3:
                for _ in range(r.choice([1, 1, 2, 4])):
                    k = r.randint(1, len(z["items"]))
                    own = r.choice(z["recs"])[0]
                    if k < len(z["items"]) and z["items"][k]["k"] == "rec" and r.random() < 0.7:
                        own = z["items"][k]["rec"][0]       # the next record may leave its owner out
                    z["items"].insert(k, {"k": "skip", "own": own, "how": r.choice(["rel", "rel", "at", None]),
                                          "text": r.choice([" ".join(["IN"] + r.choice(UNSUPPORTED)), (r.choice(BAD) % "")[1:] or "IN"])})
            z["recs"] = None
            z["crlf"] = r.random() < 0.15
            z["nl"] = r.random() < 0.7
            if r.random() < 0.4:
                o = labels(z["origin"])
                x = r.random()
                z["meta"] = text(o if x < 0.6 else o[:r.randint(0, len(o))] if x < 0.85 else labels("q.r."))
                z["meta_up"] = r.random() < 0.2
        case["report"] = r.random() < 0.4 and small_enough(self.zones(case), case["tops"])
        return case

    def zones(self, case):
        out = []
        for z in case["zones"]:
            recs = [it["rec"] for it in z["items"] if it["k"] == "rec"]
            out.append({"ns": z["ns"], "origin": z["origin"], "file": z["file"], "recs": recs})
        return out

    def valid(self, case):
        zs = self.zones(case)
        from .checks_model import valid_case
        return valid_case({"zones": zs, "tops": case["tops"]})

    def written(self, case):
        c = {"files": {}, "meta": {"TopNameServers": case["tops"], "ZoneFiles": []}}
        for z in case["zones"]:
            c["files"][z["file"]] = P.write(z["items"], z.get("meta"), z.get("crlf"), z.get("nl", True))
            e = {"FileName": z["file"], "NameServer": z["ns"]}
            if z.get("meta"):
                e["Origin"] = z["meta"].upper() if z.get("meta_up") else z["meta"]
            c["meta"]["ZoneFiles"].append(e)
        return c

    def run(self, env, case):
        zs = self.zones(case)
        c = self.written(case)
        c["zones"] = True
        if case.get("report"):
            c["jobs"] = default_jobs()
        r = env.run(c)
        compare_dumps(want_dump(zs), dump_of(r))
        n = sum(len(z["recs"]) for z in zs)
        if r["rr_count"] != n:
            raise Violation("%d records written, %d reported as parsed" % (n, r["rr_count"]))
        tc = type_counts(zs)
        if {k: v for k, v in r["types"].items() if v} != dict(tc):
            raise Violation("type counts: written %s, reported %s" % (dict(tc), r["types"]))
        if case.get("report"):
            plain = G.render({"zones": zs, "tops": case["tops"]}, jobs=default_jobs())
            p = env.run(plain)
            if report(p) != report(r) or p["jobs"][0]["ec"] != r["jobs"][0]["ec"]:
                raise Violation("the report differs from the report of the plain form\n plain: %s\n written: %s"
                                % (report(p)[:5], report(r)[:5]))
        feats = set()
        for z in case["zones"]:
            if z.get("crlf"):
                feats.add("crlf")
            if not z.get("nl", True):
                feats.add("no-final-newline")
            if z.get("meta"):
                feats.add("metadata-origin")
            for it in z["items"]:
                if it["k"] != "rec":
                    feats.add(it["k"])
                else:
                    for k, v in it["sty"].items():
                        if k in ("own", "data", "ttl"):
                            feats.add(k + ":" + str(v))
                        elif k in ("par", "order"):
                            feats.add(k)
        return n >= 4 and len(feats) >= 3, sorted(feats)

    def droppable(self, path):
        return path[-1] in ("zones", "items", "tops")

    def _simplify(case):
        for zi, z in enumerate(case["zones"]):
            for k in ("meta", "crlf"):
                if z.get(k):
                    c = copy.deepcopy(case)
                    c["zones"][zi].pop(k)
                    yield c
            if not z.get("nl", True):
                c = copy.deepcopy(case)
                c["zones"][zi]["nl"] = True
                yield c
            for ii, it in enumerate(z["items"]):
                for k in list(it.get("sty", {})):
                    c = copy.deepcopy(case)
                    c["zones"][zi]["items"][ii]["sty"].pop(k)
                    yield c
    simplify = (_simplify,)

    def sample(self, case):
        return self.written(case)


# ---- C18 ----------------------------------------------------------------------------------------------------
UNSUPPORTED = [["CAA", '0 issue "ca.t"'], ["NAPTR", '1 1 "u" "x" "y" r.t.'], ["TLSA", "3 1 1 abcd"], ["LOC", "1 2 3 N"],
               ["TYPE65", "\\# 0"], ["HTTPS", "1 svc.t. alpn=h3"], ["DNSKEY", "256 3 8 AwEAAb=="], ["NSEC3", "1 0 1 ab cd"],
               ["HINFO", '"x" "y"'], ["SSHFP", "1 1 abcd"], ["ANY", "x"], ["CNAMEX", "x.t."], ["AAAAA", "::1"]]
BAD = ["%s IN xx A 1.0.0.1", "%s foo A 1.0.0.1", "%s IN IN bar baz A 1.0.0.1", "%s IN", "%s", "%s IN ANAME q", "%s IN in In IN A 1.0.0.1",
       "%s IN 1x A 1.0.0.1", "%s ; A 1.0.0.1", "%s IN - TXT x", "%s IN NSEC3 x y A NS", "%s HINFO A B"]


def longname(r, o, how):
    """A name under o that is too long, or just short enough."""
    base = "" if o == "." else o
    if how == "label":
        return "l" * r.choice([64, 64, 65, 80]) + "." + base
    if how == "label-ok":
        return "l" * 63 + "." + base
    want = {"name": 255 + r.choice([0, 0, 1, 7, 40, 200, 700]), "name-ok": 254}[how]     # octets without the root label
    left = want - (len(base))
    parts = []
    while left > 0:
        n = min(63, left - 1)
        if left - 1 - n == 1:
            n -= 1
        if n < 1:
            return None
        parts.append("m" * n)
        left -= n + 1
    return ".".join(parts) + "." + base


def len_issue(lab):
    """None, the label that is too long, or "" when the whole name is."""
    for l in lab:
        if len(l) > 63:
            return l
    return "" if M.nlen(lab) > M.MAXLEN else None


class Acceptance:
    """Which records of a zone file count, in file order, and which issues they cause."""

    def __init__(self, origin):
        self.origin = labels(origin)
        self.kept, self.by, self.issues, self.counts, self.parsed = [], {}, [], Counter(), 0

    def add(self, rec, line):
        n, t, ttl, d = rec
        lab = labels(n)
        d = " ".join(P.tokens(d)).lower()
        self.parsed += 1
        rr = (text(lab), t, ttl, d)
        kind = self.verdict(lab, t, ttl, d)
        if kind is None:
            self.kept.append(rr)
            self.by.setdefault(lab, []).append(rr)
            self.counts[t] += 1
            if n.startswith("*."):
                self.counts["Wildcard"] += 1
        else:
            count, what = kind
            self.counts[count] += 1
            self.issues.append((line, M.rrstr(rr), what))

    def verdict(self, lab, t, ttl, d):
        x = len_issue(lab)
        if x:
            return "Label Length Exceeded", x + " - length exceedes max length (63)"
        if x == "":
            return "Domain Length Exceeded", "Domain length exceedes max length (255)"
        if t in ("NS", "CNAME", "DNAME"):
            x = len_issue(labels(d))
            if x:
                return "Label Length Exceeded", x + " - length exceedes 63"
            if x == "":
                return "Domain Length Exceeded", "Target domain length exceedes max length (255)"
        if not under(self.origin, lab):
            return "Out-of-Zone-Records", "OUT OF ZONE RECORD"
        have = self.by.get(lab, [])
        if any(r[1] == t and r[2] == ttl and r[3] == d for r in have):
            return "Duplicate-Records", "Duplicate Record"
        types = {r[1] for r in have}
        if t in ("CNAME", "DNAME") and t in types:
            return "CNAME/DNAME Errors", "MULTIPLE %ss" % t
        if types and (t == "CNAME" or "CNAME" in types):
            return "CNAME/DNAME Errors", "CNAME AND OTHER TYPES"
        return None

    def missing_glue(self):
        out = []
        for n, t, ttl, d in self.kept:
            if t == "NS" and under(self.origin, labels(d)) and \
                    not any(r[1] in ("A", "AAAA") for r in self.by.get(labels(d), ())):
                out.append(M.rrstr((n, t, ttl, d)))
        return out


class C18(Check):
    id = "C18"
    rule = ("random systems whose files also hold exact duplicates, CNAME/DNAME conflicts, out-of-zone, over-long (and just "
            "acceptable) names, unsupported types and ungrammatical lines, in plain and unusual presentations; loaded records, "
            "counts, lint entries and the reports with and without lint are compared with a sequential acceptance model; "
            "non-trivial: at least two different kinds of excluded lines and two kept records")
    n_quick, n_thorough = 4000, 60000

    def gen(self, r, i):
        case = gen_records(r, odd=0.2, extra=r.random() < 0.5,
                           K=G.knobs(children=(0, 0, 1, 2), servers=(1, 1, 2), ttls=(0, 300, 300), glue=0.5, cname=0.3, dname=0.2))
        for z in case["zones"]:
            o = z["origin"]
            recs = z["recs"]
            body = [{"k": "rec", "rec": x} for x in recs[1:]]
            soa = {"k": "rec", "rec": recs[0]}
            for _ in range(r.choice([0, 2, 3, 5, 8, 12])):
                body.insert(r.randint(0, len(body)), self.bad(r, o, recs))
            for it in body:
                if it["k"] == "unsup" and r.random() < 0.5:
                    it["rel"] = r.choice(["rel", "rel", "at"])
                if it["k"] == "rec":
                    it["sty"] = P.rand_style(r, 0.5) if r.random() < 0.5 else {}
                    it["sty"].pop("ttl", None)
            z["items"] = [soa] + [x for x in body if x is not None]
            z["recs"] = None
            if r.random() < 0.4:
                z["items"] = directive_items(r, {"origin": o, "recs": recs}, z["items"])
            z["crlf"], z["nl"] = r.random() < 0.05, r.random() < 0.85
        case["domain"] = "."
        case["report"] = r.random() < 0.4 and small_enough(self.accepted(case), case["tops"])
        case["ghosts"] = []
        for k in range(r.choice([0, 0, 0, 1, 1, 2])):
            # files without a single usable record, often of a server some zone delegates to
            known = {z["ns"] for z in case["zones"]}
            ns = [it["rec"][3] for z in case["zones"] for it in z["items"] if it["k"] == "rec" and it["rec"][1] == "NS"]
            ns = [n for n in ns if n not in known] * 3 + sorted(known) + ["ghost."]
            lines = []
            for _ in range(r.choice([0, 1, 1, 2, 4])):
                x = r.random()
                if x < 0.25:
                    lines.append("; " + r.choice(["nothing", "a 300 IN A 1.0.0.1"]))
                elif x < 0.35:
                    lines.append("")
                elif x < 0.45:
                    lines.append("$ORIGIN " + r.choice(["t.", "u.", "."]))
                elif x < 0.75:
                    lines.append("%s IN %s %s" % ("g.t.", *r.choice(UNSUPPORTED)))
                else:
                    lines.append(r.choice(BAD) % "g.t.")
            g = {"file": "g%d.txt" % k, "ns": r.choice(ns), "at": r.randint(0, 3), "top": r.random() < 0.3}
            n = longname(r, r.choice(["g.t.", "."] + [z["origin"] for z in case["zones"]]), r.choice(["label", "name"]))
            if n and r.random() < 0.5:
                # the only usable line is an SOA record whose name is too long
                g["soa"] = [n, "SOA", 300, "n1.g.t. root.g.t. 1 2 3 4 5"]
                lines.append("%s 300 IN SOA n1.g.t. root.g.t. 1 2 3 4 5" % n)
            g["text"] = "\n".join(lines + [""])
            case["ghosts"].append(g)
        return case

    def bad(self, r, o, recs):
        own = r.choice([x[0] for x in recs] + ["q." + ("" if o == "." else o)])
        x = r.random()
        if x < 0.2:
            return {"k": "rec", "rec": list(r.choice(recs))}
        if x < 0.42:
            t = r.choice(["CNAME", "DNAME", "CNAME", "A", "TXT"])
            pool = [y for y in recs if y[1] in ("CNAME", "DNAME")] or recs
            own = r.choice(pool)[0] if r.random() < 0.8 else own
            if own == "." and t == "DNAME":
                t = "CNAME"
            d = {"A": "1.0.0.7", "TXT": '"n"'}.get(t) or r.choice([y[3] for y in recs if y[1] in ("CNAME", "DNAME")] + ["n.t.", own])
            if d == "." and t == "DNAME":
                d = "n.t."
            return {"k": "rec", "rec": [own, t, 300, d]}
        if x < 0.54:
            own = r.choice(["other.", "z.other.", "x" + o if o != "." else "q.", text(labels(o)[:-1]) if o != "." else "q.",
                            text(labels(o)[1:] + ("k",))])
            if under(labels(o), labels(own)) and own != "q.":
                own = "other."
            t = r.choice(["A", "NS", "CNAME", "TXT"])
            return {"k": "rec", "rec": [own, t, 300, {"A": "1.0.0.7", "TXT": '"n"'}.get(t, "n." + ("" if o == "." else o))]}
        if x < 0.74:
            how = r.choice(["label", "name", "label-ok", "name-ok", "label", "name"])
            n = longname(r, o, how)
            if n is None:
                return self.bad(r, o, recs)
            t = r.choice(["A", "NS", "CNAME", "DNAME", "MX", "TXT"])
            if r.random() < 0.5:
                if own == "." and t == "DNAME":
                    t = "NS"
                d = {"A": "1.0.0.7", "MX": "5 " + n, "TXT": '"n"'}.get(t, n)
            else:
                d = {"A": "1.0.0.7", "MX": "5 " + own, "TXT": '"n"'}.get(t, own)
                own = n
                if d == "." and t == "DNAME":
                    d = "n.t."
            return {"k": "rec", "rec": [own, t, 300, d]}
        if x < 0.88:
            t, d = r.choice(UNSUPPORTED)
            return {"k": "unsup", "own": own, "text": "%s IN %s %s" % (own, t, d)}
        return {"k": "unsup", "own": own, "text": r.choice(BAD) % own}

    # -- the two sides
    def layout(self, case):
        """Text of every file and the acceptance of every zone."""
        files, acc = {}, []
        for z in case["zones"]:
            w = P.Writer(None, z.get("crlf"))
            a = Acceptance(z["origin"])
            for it in z["items"]:
                if it["k"] == "unsup":
                    own = labels(it["own"])
                    t = it["text"]
                    if it.get("rel") and t.startswith(it["own"] + " "):
                        t = w.name(own, it["rel"], None) + t[len(it["own"]):]
                    w.emit(t)
                    w.owner = own
                else:
                    w.item(it)
                if it["k"] == "rec":
                    a.add(it["rec"], w.line)
            files[z["file"]] = w.text(z.get("nl", True))
            acc.append(a)
        return files, acc

    def accepted(self, case):
        _, acc = self.layout(case)
        return [{"ns": z["ns"], "origin": z["origin"], "file": z["file"], "recs": [list(x) for x in a.kept]}
                for z, a in zip(case["zones"], acc)]

    def valid(self, case):
        if not case["zones"] or not case["tops"] or not {z["ns"] for z in case["zones"]} & set(case["tops"]):
            return False
        for z in case["zones"]:
            recs = [it["rec"] for it in z["items"] if it["k"] == "rec"]
            body = [it for it in z["items"] if it["k"] in ("rec", "unsup")]
            if not body or body[0]["k"] != "rec" or body[0]["rec"][1] != "SOA" or recs[0][0] != z["origin"]:
                return False
            if any(x[1] == "SOA" and x != recs[0] for x in recs):
                return False
            seen = {}
            for x in recs:     # the same data with different TTLs is left open
                if seen.setdefault((labels(x[0]), x[1], x[3].lower()), x[2]) != x[2]:
                    return False
        return len({(z["ns"], z["origin"]) for z in case["zones"]}) == len(case["zones"])

    def run(self, env, case):
        if not self.valid(case):
            raise Skip
        files, acc = self.layout(case)
        meta = {"TopNameServers": list(case["tops"]),
                "ZoneFiles": [{"FileName": z["file"], "NameServer": z["ns"]} for z in case["zones"]]}
        for g in case.get("ghosts", ()):
            files[g["file"]] = g["text"]
            meta["ZoneFiles"].insert(g["at"], {"FileName": g["file"], "NameServer": g["ns"]})
            if g["top"] and g["ns"] not in meta["TopNameServers"]:
                meta["TopNameServers"].append(g["ns"])
        ghosts = []
        for g in case.get("ghosts", ()):
            if g.get("soa"):
                a = Acceptance(g["soa"][0])
                a.add(g["soa"], g["text"].count("\n"))
                if a.kept or not g["text"].endswith("\n%s 300 IN SOA %s\n" % (g["soa"][0], g["soa"][3])) \
                        and g["text"] != "%s 300 IN SOA %s\n" % (g["soa"][0], g["soa"][3]):
                    raise Skip
                ghosts.append((g["file"], a))
        tops = meta["TopNameServers"]
        jobs = default_jobs() if case.get("report") else []
        r = env.run({"files": files, "meta": meta, "zones": True, "lint": True, "jobs": jobs})
        zs = self.accepted(case)
        compare_dumps({(z["ns"].lower(), text(labels(z["origin"]))): Counter(map(tuple, z["recs"])) for z in zs}, dump_of(r))
        every = acc + [a for _, a in ghosts]
        if r["rr_count"] != sum(a.parsed for a in every):
            raise Violation("%d supported records written, %d reported" % (sum(a.parsed for a in every), r["rr_count"]))
        counts = sum((a.counts for a in every), Counter())
        if {k: v for k, v in r["types"].items() if v} != dict(counts):
            raise Violation("counts: expected %s, reported %s" % (dict(counts), r["types"]))
        self.check_lint(case, acc, r, ghosts)
        if case.get("report"):
            if report(r) != report(env.run({"files": files, "meta": meta, "jobs": jobs})):
                raise Violation("lint changes the report")
            p = env.run(G.render({"zones": zs, "tops": tops}, jobs=jobs))
            if report(p) != report(r) or p["jobs"][0]["ec"] != r["jobs"][0]["ec"]:
                raise Violation("the excluded records change the analysis\n without them: %s\n with them: %s"
                                % (report(p)[:5], report(r)[:5]))
        kinds = {re.sub("^l+ ", "label ", w) for a in acc for _, _, w in a.issues}
        if any(it["k"] == "unsup" for z in case["zones"] for it in z["items"]):
            kinds.add("unsupported or ungrammatical")
        if any(a.missing_glue() for a in acc):
            kinds.add("missing glue")
        if case.get("ghosts"):
            kinds.add("file without records")
        if ghosts:
            kinds.add("rejected SOA")
        return len(kinds) >= 2 and sum(len(a.kept) for a in acc) >= 2, sorted(kinds)

    def check_lint(self, case, acc, r, ghosts=()):
        try:
            lint = json.loads(r["lint"])
        except ValueError as e:
            raise Violation("lint.json is not valid JSON: %s\n%s" % (e, r["lint"][-300:]))
        got, glue = Counter(), Counter()
        for e in lint:
            if e.get("Violation") == "Missing Glue Record":
                glue[(e["Server"], e["Zone"], e["Resource Record"])] += 1
            else:
                got[(os.path.basename(e["File Name"]), e["Line Number"], e["Current Record"], e["Violation"])] += 1
        want = Counter((z["file"], l, rr, what) for z, a in zip(case["zones"], acc) for l, rr, what in a.issues)
        want.update((f, l, rr, what) for f, a in ghosts for l, rr, what in a.issues)
        if want != got:
            raise Violation("lint entries differ\n missing: %s\n unexpected: %s"
                            % (sorted((want - got).elements())[:4], sorted((got - want).elements())[:4]))
        want = Counter((z["ns"].lower(), text(labels(z["origin"])), rr) for z, a in zip(case["zones"], acc) for rr in a.missing_glue())
        if want != glue:
            raise Violation("missing glue entries differ\n missing: %s\n unexpected: %s"
                            % (sorted((want - glue).elements())[:4], sorted((glue - want).elements())[:4]))
        for e in lint:
            if "Previous Record" in e and e["Violation"] != "Missing Glue Record":
                k = [i for i, z in enumerate(case["zones"]) if z["file"] == os.path.basename(e["File Name"])]
                if not k:
                    if e["Previous Record"]:
                        raise Violation("lint names a previous record of an empty zone: %s" % e)
                    continue
                k = k[0]
                if e["Previous Record"] not in {M.rrstr(x) for x in acc[k].kept}:
                    raise Violation("lint names a previous record that is not in the zone: %s" % e)

    def droppable(self, path):
        return path[-1] in ("zones", "items", "tops", "ghosts")

    simplify = C17.simplify

    def sample(self, case):
        return {"files": self.layout(case)[0]}


# ---- C19 ----------------------------------------------------------------------------------------------------
DICT = ["(", ")", "((", "))", '"', '""', ";", "\n", "\r", "\t", " ", "\\", "\\.", "\\(", "\\)", ".", "..", "*", "*.", "@", "$",
        "$ORIGIN", "\n$ORIGIN\n", "\n$ORIGIN \n", "\n$ORIGIN .\n", "\n$ORIGIN \x00\n", "\n$ORIGIN (\n", "\n$ORIGIN a..b\n", "\n$TTL\n",
        "\n$TTL \n", "\n$TTL -1\n", "\n$TTL 99999999999999999999\n", "\n$TTL abc\n", "\n$TTL 5x\n", "\n$TTL\t(5\n)\n", "\n$INCLUDE x\n", "\n$GENERATE 1-2 a A 1\n",
        "\n@\n", "\n@ A\n", "\n A\n", "\nA\n", "\nA A A A A\n", "\nx A\n", "\nx NS\n", "\nx CNAME\n", "\nx MX\n", "\nx MX @\n", "\nx SOA\n",
        "\nx DNAME\n", "\nx NS .\n", "\nx NS @\n", "\nx 99999999999 A 1\n", "\nx -5 A 1\n", "\nx +5 IN A 1\n", "\nx 0x10 A 1\n", "\n. DNAME x.\n", "\n. NS a.\n", "\nx CH A 1\n",
        "\n. A 1.1.1.1\n", "\n.. A 1\n", "\n\\. A 1\n", "\n\\ A 1\n", "\n*.* A 1\n", "\n* DNAME .\n", "\nx DNAME x\n", "\nx CNAME .\n", "\nx DS 1 2 3 x\n", "\nx SPF\n",
        "SOA", "NS", "CNAME", "DNAME", "A", "TXT", "IN", "CH", "0", "-1", "4294967296", "2147483648", "99999999999999999999",
        "\x00", "\xff", "\x80", "\xc3\xa9", "\xe2\x80\xa8", "\xef\xbb\xbf", "a" * 64, "b" * 300, "1" * 40, "x." * 140, "." * 50, "\\" * 9, "(" * 60, ")" * 60, '"' * 7,
        "$TTL 5\n", "$ORIGIN q.\n", " IN ", " A ", "\n\n", "\\\n", "\\\"", "_", "~{ }", "~{ }.", "{", "}", "%s", "%n", "\x7f", "\x1b["]


def gen_edits(r, text, lo, n=None):
    """Edits (position, length removed, text inserted) at or after position lo."""
    out = []
    size = len(text)
    words = text.split()
    lines = text.split("\n")
    for _ in range(n or r.choice([1, 1, 1, 2, 3, 5])):
        p = r.randint(min(lo, size), size)
        x = r.random()
        if x < 0.2:
            out.append([p, 1, chr(r.randint(0, 255))])
        elif x < 0.3:
            out.append([p, r.choice([1, 1, 2, 3, 8, 20, 80]), ""])
        elif x < 0.62:
            out.append([p, r.choice([0, 0, 0, 1, 4]), r.choice(DICT)])
        elif x < 0.7:
            out.append([p, 0, "".join(chr(r.randint(0, 255)) for _ in range(r.choice([1, 2, 5, 20])))])
        elif x < 0.78:
            out.append([p, size, r.choice(["", "", "\n", "(", '"', ";", "\\"])])         # cut off
        elif x < 0.9:
            q = text.rfind("\n", 0, p) + 1
            e = text.find("\n", p) + 1 or size
            if q < lo:
                q = p
            y = r.random()
            if y < 0.35:
                out.append([q, max(0, e - q), ""])
            elif y < 0.7:
                out.append([e, 0, r.choice(lines) + "\n"])
            else:
                l = r.choice(lines).split(" ")
                r.shuffle(l)
                out.append([e, 0, " ".join(l) + "\n"])
        elif x < 0.96:
            out.append([p, r.choice([0, 3]), " ".join(r.choice(words + DICT) for _ in range(r.randint(1, 6)))])
        else:
            out.append([p, 0, r.choice(["a", "(", "a.", "\\.", "1", " ", "\n", '"', "x\n"]) * r.choice([1000, 5000, 20000])])
    return out


def apply_edits(text, edits):
    """Applied from the back, so that positions refer to the undamaged text."""
    for p, k, ins in sorted(edits, key=lambda e: -e[0]):
        p = min(p, len(text))
        text = text[:p] + ins + text[p + k:]
    return text


SAFE_NAME = re.compile(r"^(\.|([a-z0-9_*/+-]{1,63}\.)+)$")
SAFE_WORD = re.compile(r'^([a-z0-9_*:./+=-]+|"[a-z0-9_*:./+= -]*")$')


class C19(Check):
    id = "C19"
    programs = [("asan", "worker"), ("fast", "worker"), ("fuzz", "fuzz")]
    rule = ("zone files in random presentations damaged by byte, token, line and truncation edits, run under ASan/UBSan with other "
            "intact zone files and random jobs; outcome, kept records, other zones, report syntax and equivalence with a plain file of "
            "the loaded records are checked; then libFuzzer mutates such files for coverage of loader and lookup, and the files that reach new "
            "code are judged in the same way; non-trivial: the damaged file was loaded and differs from the undamaged one, or ended "
            "the run with the documented diagnostics")
    n_quick, n_thorough = 1600, 60000
    quick_seconds = 300

    def gen(self, r, i):
        case = gen_records(r, odd=0.3, K=G.knobs(children=(0, 0, 1, 1, 2), servers=(1, 1, 2), recs=(1, 2, 3, 4), ttls=(0, 300)))
        for z in case["zones"]:
            wild = r.choice([0, 0.3, 0.3, 1.0])
            items = [{"k": "rec", "rec": rec, "sty": P.rand_style(r, wild)} for rec in z["recs"]]
            z["items"] = directive_items(r, z, items) if r.random() < 0.4 else items
            z["recs"] = None
            z["crlf"] = r.random() < 0.1
        case["victim"] = r.randrange(len(case["zones"]))
        z = case["zones"][case["victim"]]
        text_, ends = self.victim_text(z)
        lo = 0 if r.random() < 0.25 else ends[[it["k"] == "rec" for it in z["items"]].index(True)]
        case["edits"] = gen_edits(r, text_, lo)
        zs = C17.zones(self, case)
        case["jobs"] = [None] if r.random() < 0.7 else []
        if r.random() < 0.6:
            case["jobs"].append(G.gen_job(r, {"zones": zs, "tops": case["tops"]}, r.choice(
                [x for x in G.ALLPROPS if x not in ("ResponseConsistency", "ZeroTTL")]), 0.6))
        if not small_enough(zs, case["tops"]):
            case["jobs"] = []
        case["lint"] = r.random() < 0.3
        return case

    def victim_text(self, z):
        w = P.Writer(None, z.get("crlf"))
        ends = []
        for it in z["items"]:
            w.item(it)
            ends.append(sum(map(len, w.out)))
        return w.text(), ends

    def valid(self, case):
        if not 0 <= case["victim"] < len(case["zones"]) or not case["edits"]:
            return False
        return C17.valid(self, case)

    zones = C17.zones

    def build(self, case):
        v = case["zones"][case["victim"]]
        c = {"files": {}, "meta": {"TopNameServers": case["tops"], "ZoneFiles": []}, "jobs": case["jobs"], "zones": True,
             "lint": case.get("lint", False)}
        for z in case["zones"]:
            c["files"][z["file"]] = P.write(z["items"], None, z.get("crlf"))
            c["meta"]["ZoneFiles"].append({"FileName": z["file"], "NameServer": z["ns"]})
        base, ends = self.victim_text(v)
        c["files"][v["file"]] = apply_edits(base, case["edits"])
        first = min(e[0] for e in case["edits"])
        keep = [it["rec"] for it, e in zip(v["items"], ends) if it["k"] == "rec" and e <= first]
        return c, v, keep, c["files"][v["file"]] != base

    def run(self, env, case):
        c, v, keep, changed = self.build(case)
        r = env.raw(c, "asan")
        if r["status"] == "timeout" and case["jobs"]:
            q = dict(c, jobs=[])
            q = env.raw(q, "asan")
            if q["status"] == "ok" and not self.small(case, q["res"]):
                raise Skip          # the damage makes the number of executions explode
        if r["status"] == "exit" and r.get("code") == 1 and not keep and "Sanitizer" not in r.get("err", ""):
            return changed, ["ended with the documented diagnostics"]
        if r["status"] != "ok":
            raise Violation("run did not end as documented: %s %s\n%s\n%s"
                            % (r["status"], r.get("code", ""), r.get("err", "")[-2500:], json.dumps(c["files"][v["file"]][-300:])))
        res = r["res"]
        if "exception" in res:
            raise Violation("unhandled exception: " + res["exception"])
        for k in ("out", "lint"):
            if k in res:
                try:
                    json.loads(res[k].encode("latin-1", "strict").decode("utf-8", "strict") if not res[k].isascii() else res[k])
                except ValueError as e:
                    raise Violation("%s file is not well-formed: %s" % (k, e))
        zs = self.zones(case)
        others = [z for i, z in enumerate(zs) if i != case["victim"]]
        got, damaged = Counter(), None
        want = {(z["ns"], z["origin"]): z for z in others}
        loaded = []
        for z in res["zones"]:
            recs = [tuple(x) for _, rrs in z["nodes"] for x in rrs]
            loaded.append((z, recs))
        rest = list(loaded)
        for z in others:
            w = Counter((text(labels(n)), t, ttl, " ".join(P.tokens(d)).lower()) for n, t, ttl, d in z["recs"])
            hit = [x for x in rest if x[0]["ns"] == z["ns"] and Counter(x[1]) == w]
            if not hit:
                raise Violation("the intact zone file %s (%s) is not loaded as before" % (z["file"], z["origin"]))
            rest.remove(hit[0])
        if len(rest) > 1 or (keep and not rest):
            raise Violation("%d zones instead of the damaged one" % len(rest))
        feats = ["sanitized run ok", "victim loaded" if rest else "victim ignored"]
        if rest:
            have = Counter(rest[0][1])
            w = Counter((text(labels(n)), t, ttl, " ".join(P.tokens(d)).lower()) for n, t, ttl, d in keep)
            if w - have:
                raise Violation("records before the damage are lost: %s" % list((w - have).elements())[:3])
        if case["jobs"]:
            plain = self.plain(case, rest[0][1] if rest else None)
            if plain is not None:
                from .canon import canon_report
                p = env.run(plain)
                a, b = canon_report(p["out"], queries=False), canon_report(res["out"], queries=False)
                if a != b or [j["ec"] for j in p["jobs"]] != [j["ec"] for j in res["jobs"]]:
                    raise Violation("the report differs from the one for a file with only the readable records\n only plain: %s\n only damaged: %s\n queries %s %s"
                                    % (sorted(set(a) - set(b))[:3], sorted(set(b) - set(a))[:3], p["jobs"], [j["ec"] for j in res["jobs"]]))
                feats.append("report compared")
        return changed, feats

    def plain(self, case, recs):
        """The same configuration with a plain file of the loaded records; None when these cannot be written plainly."""
        zs = self.zones(case)
        v = zs[case["victim"]]
        recs = recs or []
        if sum(1 for x in recs if x[1] == "SOA") > 1:
            return None
        for n, t, ttl, d in recs:
            if not SAFE_NAME.match(n) or ttl >= 1 << 31 or not d or any(not SAFE_WORD.match(x) for x in P.tokens(d)):
                return None
            if t in ("NS", "CNAME", "DNAME", "MX") and (not SAFE_NAME.match(d.split(" ")[-1]) or (t != "MX" and " " in d)):
                return None
        seen = Counter((n, t, d) for n, t, ttl, d in recs)
        if any(k > 1 for k in seen.values()):
            return None
        v["recs"] = sorted((list(x) for x in recs), key=lambda x: x[1] != "SOA")
        if recs and not self.small_zones(case, zs):
            return None
        return G.render({"zones": zs, "tops": case["tops"]}, jobs=case["jobs"])

    def small_zones(self, case, zs):
        zs = [dict(z, origin=z["recs"][0][0]) for z in zs if z["recs"]]
        return small_enough(zs, case["tops"])

    def small(self, case, res):
        zs = []
        for z in res["zones"]:
            recs = sorted(([text(labels(x[0]))] + x[1:] for _, rrs in z["nodes"] for x in rrs), key=lambda x: x[1] != "SOA")
            zs.append({"ns": z["ns"], "origin": z["origin"], "file": "f%d" % len(zs), "recs": recs})
        return small_enough(zs, case["tops"])

    def droppable(self, path):
        return path[-1] in ("zones", "items", "edits", "jobs", "Properties")

    def _shorter(case):
        for i, (p, k, ins) in enumerate(case["edits"]):
            for cut in (ins[:len(ins) // 2], ins[len(ins) // 2:], ins[1:], ins[:-1]):
                if cut != ins:
                    c = copy.deepcopy(case)
                    c["edits"][i][2] = cut
                    yield c
    simplify = (C17._simplify, _shorter)

    # -- coverage-guided search: libFuzzer finds zone files, every one that reaches new code is judged by run() --
    def from_bytes(self, data, k):
        """The case in which the damaged file consists of these bytes."""
        def rec(n, t, d):
            return {"k": "rec", "rec": [n, t, 300, d], "sty": {}}
        other = [rec("o.t.", "SOA", "ns.o.t. h.o.t. 1 2 3 4 5"), rec("o.t.", "NS", "ns.o.t."), rec("ns.o.t.", "A", "1.1.1.1"),
                 rec("*.o.t.", "CNAME", "a.t."), rec("b.o.t.", "NS", "ns.t.")]
        zs = [{"file": "in.txt", "ns": "ns.t.", "origin": "t.", "recs": None, "items": [rec("t.", "SOA", "ns.t. h.t. 1 2 3 4 5")]},
              {"file": "other.txt", "ns": "ns.o.t.", "origin": "o.t.", "recs": None, "items": other}]
        return {"zones": zs if k % 2 else zs[::-1], "tops": ["ns.t.", "ns.o.t."][:1 + k % 3 % 2], "victim": 0 if k % 2 else 1,
                "edits": [[0, 1 << 30, data.decode("latin-1")]], "jobs": [None] if k % 4 else [], "lint": k % 3 == 0}

    def finish(self, exes, tier, seed, deadline):
        runs, keep = (2500, 240) if tier == "quick" else (120000, 8000)
        exe = exes[("fuzz", "fuzz")]
        d = tempfile.mkdtemp(prefix="vffuzz.")
        res = {"n": 0, "features": {}, "violations": [], "errors": [], "nontrivial": [], "samples": []}
        try:
            os.mkdir(d + "/seeds")
            for i in range(150):
                c = R.make(self, seed, 1000000 + i)
                if c:
                    b = self.build(c)[0]
                    text_ = b["files"][c["zones"][c["victim"]]["file"]]
                    if len(text_) < 1500:
                        with open(d + "/seeds/s%d" % i, "wb") as f:
                            f.write(text_.encode("latin-1"))
            with open(d + "/dict", "w") as f:
                for w in DICT:
                    if len(w) < 40:
                        f.write('"%s"\n' % "".join(c if c.isascii() and c.isalnum() else "\\x%02x" % ord(c) for c in w))
            env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1")
            ps = []
            left = max(20, min(120 if tier == "quick" else 1500, deadline - time.time()))
            for k in range(8):
                w = d + "/w%d" % k
                os.makedirs(w + "/new")
                ps.append((w, subprocess.Popen(
                    [exe, "-runs=%d" % runs, "-seed=%d" % (seed * 8 + k + 1), "-max_len=1200", "-timeout=25", "-rss_limit_mb=3500",
                     "-max_total_time=%d" % left, "-detect_leaks=0", "-print_funcs=0", "-dict=../dict", "-artifact_prefix=./art-", "new", "../seeds"],
                    cwd=w, env=env, stdout=subprocess.DEVNULL, stderr=open(w + "/log", "wb"))))
            done, cov, arts, units = 0, 0, [], {}
            for w, p in ps:
                p.wait()
                log = open(w + "/log", errors="replace").read()
                if p.returncode and not any(f.startswith("art-") for f in os.listdir(w)):
                    res["errors"].append("libFuzzer did not run: " + log[-1500:])
                m = re.findall(r"#(\d+)\s+\w+\s+cov: (\d+)", log)
                if m:
                    done, cov = done + int(m[-1][0]), max(cov, int(m[-1][1]))
                for f in os.listdir(w):
                    if f.startswith("art-"):
                        arts.append(open(os.path.join(w, f), "rb").read())
                for f in os.listdir(w + "/new"):
                    units[f] = open(os.path.join(w + "/new", f), "rb").read()
            names = sorted(units)
            random.Random(seed).shuffle(names)
            todo = [("artifact", a) for a in arts[:6]] + [("unit", units[f]) for f in names[:keep]]
            lock, seen = threading.Lock(), Counter()

            def work(part):
                env_ = R.Env(exes)
                try:
                    for k, (kind, data) in part:
                        if time.time() > deadline + 60 or res["violations"]:
                            break
                        case = self.from_bytes(data, k)
                        try:
                            nt, feats = self.run(env_, case)
                        except Skip:
                            continue
                        except Violation:
                            msg = R.confirm(self, env_, case)
                            if msg is None:
                                continue
                            small = shrink(case, lambda c: R.evaluate(self, env_, c) is not None, self.valid, self.simplify,
                                                     seconds=20, droppable=self.droppable)
                            msg = R.evaluate(self, env_, small) or msg
                            with lock:
                                res["violations"].append({"case": small, "message": msg, "original": case})
                            break
                        with lock:
                            seen["fuzzed: " + feats[0]] += 1
                            res["n"] += 1
                            if nt:
                                res["nontrivial"].append(self.key(case))
                except Exception:
                    with lock:
                        res["errors"].append(traceback.format_exc()[-2000:])
                finally:
                    env_.close()

            ts = [threading.Thread(target=work, args=(list(enumerate(todo))[k::8],)) for k in range(8)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            res["features"] = dict(seen, **{"libFuzzer runs": done, "libFuzzer edges covered": cov, "libFuzzer new units": len(units),
                                            "libFuzzer artifacts": len(arts)})
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return res

    def sample(self, case):
        c = self.build(case)[0]
        return {"files": {k: v if len(v) < 3000 else v[:3000] + "..." for k, v in c["files"].items()}, "jobs": c["jobs"]}


CHECKS = {c.id: c for c in (C17, C18, C19)}
