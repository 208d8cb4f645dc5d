"""Writer of master files: turns records with a style into one of their presentations (and tracks what is in force)."""
from .model import labels, text, under

NAME_TYPES = ("NS", "CNAME", "DNAME", "MX")
COMMENTS = ["; c", ";", ";;x", '; "open', "; (", "; ) x", "; $TTL 5", "; @ 9 IN A 1.2.3.4", ";\\", "; $ORIGIN zz."]


def rand_style(r, wild=1.0):
    """wild scales the share of unusual choices."""
    s = {}

    def put(k, p, f):
        if r.random() < p * wild:
            s[k] = f()
    put("own", 0.7, lambda: r.choice(["rel", "rel", "at", "omit", "omit"]))
    put("ttl", 0.4, lambda: "omit")
    put("zeros", 0.04, lambda: 1)
    put("cls", 0.5, lambda: r.choice(["", "", "in", "In"]))
    put("order", 0.35, lambda: "ct")
    put("tcase", 0.25, lambda: r.choice(["l", "m"]))
    put("ncase", 0.25, lambda: r.choice(["u", "m", "m2"]))
    put("dcase", 0.25, lambda: r.choice(["u", "m", "m2"]))
    put("data", 0.7, lambda: r.choice(["rel", "rel", "at"]))
    put("sep", 0.4, lambda: [r.choice(["\t", "  ", " \t ", "\t\t"]) for _ in range(3)])
    put("tail", 0.3, lambda: r.choice([" ", "\t", "", " "]) + r.choice(COMMENTS + [""]))
    if r.random() < 0.3 * wild:
        s["par"] = [r.randint(0, 7), r.randint(0, 7),
                    [[r.randint(0, 7), r.choice(["", " ", ""]) + r.choice(["", ""] + COMMENTS), r.choice(["", " ", "\t", "   "])]
                     for _ in range(r.randint(1, 3))]]
    return s


def recase(t, how):
    if how == "u":
        return t.upper()
    if how == "m":
        return "".join(c.upper() if i % 2 else c for i, c in enumerate(t))
    if how == "m2":
        return "".join(c.upper() if i % 3 == 0 else c for i, c in enumerate(t))
    return t


def tokens(d):
    """Splits record data into words and quoted strings."""
    out, cur, q = [], "", False
    for ch in d:
        if ch == '"':
            q = not q
            cur += ch
        elif ch == " " and not q:
            if cur:
                out.append(cur)
            cur = ""
        else:
            cur += ch
    if cur:
        out.append(cur)
    return out


class Writer:
    def __init__(self, origin=None, crlf=False):
        self.origin = labels(origin) if origin else None
        self.owner = None
        self.ttl_dir = None         # value of $TTL
        self.last_ttl = 0           # last stated TTL
        self.out = []
        self.crlf = crlf
        self.line = 0

    def emit(self, s):
        self.line += s.count("\n") + 1
        s += "\n"
        self.out.append(s.replace("\n", "\r\n") if self.crlf else s)

    def default_ttl(self):
        return self.ttl_dir if self.ttl_dir is not None else self.last_ttl

    def name(self, lab, how, case):
        """Presentation of a name; falls back to the absolute form."""
        if how == "at" and self.origin is not None and lab == self.origin:
            return "@"
        if how == "rel" and self.origin is not None and under(self.origin, lab) and len(lab) > len(self.origin):
            t = text(lab[len(self.origin):])[:-1]
            if not t.endswith("\\") and t != "@":
                return recase(t, case)
        return recase(text(lab), case)

    def rec(self, rec, s):
        n, t, ttl, d = rec
        lab = labels(n)
        soa_first = self.origin is None
        how = s.get("own")
        if how == "omit" and self.owner == lab:
            own = ""
        else:
            own = self.name(lab, how, s.get("ncase"))
        if own.startswith("$"):
            own = text(lab)
        toks = []
        cls = s.get("cls", "IN")
        if s.get("ttl") == "omit" and self.default_ttl() == ttl:
            tt = ""
        else:
            tt = ("00" if s.get("zeros") else "") + str(ttl)
            self.last_ttl = ttl
        for x in ((cls, tt) if s.get("order") == "ct" else (tt, cls)):
            if x:
                toks.append(x)
        toks.append(recase(t.lower(), "m") if s.get("tcase") == "m" else t.lower() if s.get("tcase") == "l" else t)
        dt = tokens(d)
        if t in NAME_TYPES:
            if soa_first:
                how = "abs"
            else:
                how = s.get("data")
            dt = dt[:-1] + [self.name(labels(dt[-1]), how, s.get("dcase"))]
        else:
            dt = [recase(x, s.get("dcase")) for x in dt]
        toks += dt
        self.owner = lab
        if soa_first and t == "SOA":
            self.origin = lab
        self.write(own, toks, s)

    def write(self, own, toks, s):
        sep = s.get("sep") or [" "]
        gap = lambda i: sep[i % len(sep)]
        line = own
        par = s.get("par")
        a = b = None
        if par:
            a, b = sorted((par[0] % (len(toks) + 1), par[1] % (len(toks) + 1)))
        nls = {}
        if par:
            for at, com, lead in par[2]:
                k = a + at % (b - a + 1)
                nls.setdefault(k, []).append((com, lead))
        for i in range(len(toks) + 1):
            # gap i lies before token i
            g = gap(i) if i < len(toks) or i in (a, b) else ""
            if i == a:
                g += "("
            for com, lead in nls.get(i, ()):
                g += com + "\n" + lead
            if i == b:
                g += ")"
            if i < len(toks):
                if (i == a or i == b) and (i % 2):
                    g += " "
                line += g + toks[i]
            else:
                line += g
        self.emit(line + s.get("tail", ""))

    def item(self, it):
        k = it["k"]
        if k == "rec":
            self.rec(it["rec"], it.get("sty", {}))
        elif k == "origin":
            lab = labels(it["name"])
            s = it.get("sty", {})
            how = s.get("own") if self.origin is not None else "abs"
            t = self.name(lab, "rel" if how == "rel" else "abs", s.get("ncase"))
            self.emit("$ORIGIN" + (s.get("sep") or [" "])[0] + t + s.get("tail", ""))
            self.origin = lab
        elif k == "ttl":
            self.emit("$TTL" + (it.get("sty", {}).get("sep") or [" "])[0] + str(it["v"]) + it.get("sty", {}).get("tail", ""))
            self.ttl_dir = it["v"]
        elif k == "blank":
            self.emit(it["text"])
        elif k == "skip":       # a line that holds no supported record; its owner counts as the last one
            lab = labels(it["own"])
            self.emit(self.name(lab, it.get("how"), None) + " " + it["text"])
            self.owner = lab
        else:
            raise AssertionError(k)

    def text(self, final_newline=True):
        t = "".join(self.out)
        if not final_newline:
            t = t.rstrip("\n")
            if self.crlf and t.endswith("\r"):
                t = t[:-1]
        return t


def write(items, origin=None, crlf=False, final_newline=True):
    w = Writer(origin, crlf)
    for it in items:
        w.item(it)
    return w.text(final_newline)
