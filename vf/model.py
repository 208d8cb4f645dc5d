"""Reference model of zone lookup, resolution, query classes and properties (independent of /repo's code)."""

ALL = ("A", "NS", "CNAME", "DNAME", "SOA", "PTR", "MX", "TXT", "AAAA", "SRV", "RRSIG", "NSEC", "SPF", "DS")
ALLSET = frozenset(ALL)
MAXLEN = 254


class TooBig(Exception):
    pass


_lab = {}


def labels(name):
    """Root-first labels of a textual name (an escaped dot does not split)."""
    r = _lab.get(name)
    if r is None:
        out, cur = [], ""
        for ch in (name if name.endswith(".") else name + "."):
            if ch == "." and cur:
                if cur[-1] == "\\":
                    cur += ch
                else:
                    out.append(cur)
                    cur = ""
            else:
                cur += ch
        r = tuple(reversed(out)) if name else ()
        if len(_lab) > 200000:
            _lab.clear()
        _lab[name] = r
    return r


def text(lab):
    return "".join(l + "." for l in reversed(lab)) if lab else "."


def nlen(lab):
    return sum(len(l) + 1 for l in lab)


def valid_name(lab):
    return all(len(l) <= 63 for l in lab) and nlen(lab) <= MAXLEN


def under(dom, name):
    return name[:len(dom)] == dom


def rrstr(r):
    return text(labels(r[0])) + "   " + r[1] + "   " + r[3]


class Zone:
    """A loaded zone: records are (owner text, type, ttl, data), all lower case and well formed."""

    def __init__(self, ns, origin, recs, extra_nodes=()):
        self.ns, self.origin, self.recs = ns, labels(origin), recs
        self.at = {}
        self.nodes = {()}
        self.order = []
        for r in recs:
            n = labels(r[0])
            if n not in self.at:
                self.at[n] = []
                self.order.append(n)
                for i in range(len(n) + 1):
                    self.nodes.add(n[:i])
            self.at[n].append(r)
        for n in extra_nodes:
            for i in range(len(n) + 1):
                self.nodes.add(n[:i])
        self.types = {n: frozenset(r[1] for r in rs) for n, rs in self.at.items()}

    def glue(self, target):
        return [r for r in self.at.get(labels(target), ()) if r[1] in ("A", "AAAA")]

    def ns_with_glue(self, node):
        out = []
        for r in self.at.get(node, ()):
            if r[1] == "NS":
                out.append(r)
                out.extend(self.glue(r[3]))
        return out

    def lookup(self, name, types, excluded):
        """[(tag, types, records)]; types is meaningful for ANS only."""
        cur, k = (), 0
        while k < len(name) and name[:k + 1] in self.nodes:
            k += 1
            cur = name[:k]
            t = self.types.get(cur, frozenset())
            if "NS" in t and "SOA" not in t:
                break
            if "DNAME" in t and k < len(name):
                break
        t = self.types.get(cur, frozenset())
        here = self.at.get(cur, [])
        if k == len(name) and not excluded:
            for r in here:
                if r[1] == "CNAME":
                    return [("ANS" if types == frozenset(("CNAME",)) else "REWRITE", frozenset(("CNAME",)), [r])]
            if "NS" in t and "SOA" not in t:
                return [("REF", None, self.ns_with_glue(cur))]
            recs = [r for r in here if r[1] in types and r[1] != "NS"]
            found = frozenset(r[1] for r in recs)
            if "NS" in types and "NS" in t:
                recs = recs + self.ns_with_glue(cur)
                found |= {"NS"}
            return self._ans(found, recs, types)
        if "NS" in t and "SOA" not in t:
            return [("REF", None, self.ns_with_glue(cur))]
        if "DNAME" in t:
            return [("REWRITE", None, [r for r in here if r[1] == "DNAME"])]
        w = cur + ("*",)
        if w in self.nodes:
            wr = self.at.get(w, [])
            for r in wr:
                if r[1] == "CNAME":
                    return [("ANS" if types == frozenset(("CNAME",)) else "REWRITE", frozenset(("CNAME",)), [r])]
            recs = [r for r in wr if r[1] in types]
            return self._ans(frozenset(r[1] for r in recs), recs, types)
        return [("NX", types, [])]

    @staticmethod
    def _ans(found, recs, types):
        out = []
        if found:
            out.append(("ANS", found, recs))
        if types - found:
            out.append(("ANS", types - found, []))
        return out


class System:
    """zones: list of Zone in load order; tops: list of server names."""

    def __init__(self, zones, tops, dname_sources=None):
        self.zones, self.tops = zones, tops
        self.by_ns = {}
        for z in zones:
            self.by_ns.setdefault(z.ns, []).append(z)
        # names known from all zones, with DNAME edges
        self.children = {(): []}
        self.dn = {}
        self.vertices = {()}
        self.holders = {}

        def add(n):
            for i in range(1, len(n) + 1):
                if n[:i] not in self.vertices:
                    self.vertices.add(n[:i])
                    self.children.setdefault(n[:i - 1], []).append(n[:i])
                    self.children.setdefault(n[:i], [])
        for z in zones:
            for r in z.recs:
                n = labels(r[0])
                add(n)
                if r[1] == "DNAME":
                    tgt = labels(r[3])
                    add(tgt)
                    l = self.dn.setdefault(n, [])
                    if tgt not in l:
                        l.append(tgt)
                h = self.holders.setdefault(n, [])
                if z not in h:
                    h.append(z)

    # ---- zone choice -------------------------------------------------------------------------------------
    def zone_for(self, ns, name):
        best = None
        for z in self.by_ns.get(ns, ()):
            if under(z.origin, name) and (best is None or len(z.origin) > len(best.origin)):
                best = z
        return best

    # ---- query classes -----------------------------------------------------------------------------------
    def enclosers(self, lab):
        """(matched, nodes): the longest match of lab following DNAME edges."""
        best, nodes = -1, []
        steps = [0]

        def go(node, idx, stack):
            nonlocal best, nodes
            steps[0] += 1
            if steps[0] > 3000:
                raise TooBig
            if idx == len(lab):
                hit(node, idx)
                return
            if stack.get(node) == idx:
                return
            old = stack.get(node)
            stack[node] = idx
            hit(node, idx)
            for t in self.dn.get(node, ()):
                go(t, idx, stack)
            c = node + (lab[idx],)
            if c in self.vertices:
                go(c, idx + 1, stack)
            if old is None:
                del stack[node]
            else:
                stack[node] = old

        def hit(node, idx):
            nonlocal best, nodes
            if idx > best:
                best, nodes = idx, []
            if idx == best and node not in nodes:
                nodes.append(node)
        go((), 0, {})
        return best, nodes

    def classes(self, job, limit=3000):
        """Ordered list of distinct (name, types, excluded, nonexistent) and the structural (node, display) list."""
        lab = labels(job["Domain"].lower())
        treq = types_req(job)
        out, seen, structural = [], set(), []

        def emit(e):
            if e not in seen:
                seen.add(e)
                out.append(e)
                if len(out) > limit:
                    raise TooBig
        if not valid_name(lab):
            return out, structural
        m, nodes = self.enclosers(lab)
        if m != len(lab):
            emit((lab[:m], treq, True, False))
            return out, structural
        if not job["SubDomain"]:
            emit((lab, treq, False, False))
            return out, structural
        steps = [0]
        want_struct = any(p["PropertyName"] == "StructuralDelegationConsistency" for p in job["Properties"])

        def gen(node, parent, skip, struct, mark):
            steps[0] += 1
            if steps[0] > 4 * limit:
                raise TooBig
            plen = nlen(parent)
            if plen > MAXLEN or (skip and mark.get(node) == plen):
                return
            if not node:
                name = parent
            elif skip and parent:
                name = parent
            else:
                name = parent + (node[-1],)
            n = nlen(name)
            if n > MAXLEN:
                return
            old = mark.get(node)
            mark[node] = n
            if struct:
                structural.append((node, name))
            wild = False
            for c in self.children.get(node, ()):
                if c[-1] == "*":
                    wild = True
                gen(c, name, False, struct, mark)
            for t in self.dn.get(node, ()):
                gen(t, name, True, False, mark)
            if old is None:
                del mark[node]
            else:
                mark[node] = old
            if not skip:
                emit((name, treq, False, False))
            if wild:
                emit((name, treq, True, False))
            else:
                emit((name, ALLSET, True, True))
        for nd in nodes:
            gen(nd, lab[:-1], False, want_struct, {})
        return out, structural


def types_req(job):
    t = set()
    for p in job["Properties"]:
        if "Types" in p:
            t.update(p["Types"])
        else:
            t.add("NS")
    return frozenset(t)


class Node:
    __slots__ = ("ns", "name", "types", "excl", "nonex", "ans", "out", "id")

    def __init__(self, ns, name, types, excl, nonex, id):
        self.ns, self.name, self.types, self.excl, self.nonex, self.id = ns, name, types, excl, nonex, id
        self.ans = None
        self.out = []   # (target node, side-query node or None)

    def q(self):
        return ("~{ }." if self.excl else "") + text(self.name)

    def tag(self):
        return self.ans[0][0] if self.ans else None


class Resolution:
    def __init__(self, sys, ec, limit=600):
        self.sys, self.nodes, self.limit = sys, {}, limit
        self.list = []
        self.root = self._new("", ec[0], ec[1], ec[2], ec[3])
        self._top(self.root, (ec[0], ec[1], ec[2], ec[3]))

    def _new(self, ns, name, types, excl, nonex):
        n = Node(ns, name, types, excl, nonex, len(self.list))
        self.list.append(n)
        self.nodes[(ns, name, types, excl)] = n
        if len(self.list) > self.limit:
            raise TooBig
        return n

    def _step(self, src, ns, q, side=None):
        """Returns the node if it is new."""
        n = self.nodes.get((ns, q[0], q[1], q[2]))
        if n is not None:
            src.out.append((n, side))
            return None
        n = self._new(ns, *q)
        src.out.append((n, side))
        return n

    def _top(self, src, q):
        for ns in self.sys.tops:
            z = self.sys.zone_for(ns, q[0])
            n = self._step(src, ns, q)
            if n is not None:
                if z is None:
                    n.ans = [("REFUSED" if ns in self.sys.by_ns else "NSNOTFOUND", q[1], [])]
                else:
                    self._resolve(n, z)

    def _resolve(self, n, z):
        n.ans = z.lookup(n.name, n.types, n.excl)
        for tag, _, recs in n.ans:
            if tag == "REWRITE":
                r = recs[0]
                if r[1] == "CNAME":
                    q = (labels(r[3]), n.types - {"CNAME"}, False, False)
                else:
                    own = labels(r[0])
                    q = (labels(r[3]) + n.name[len(own):], n.types, n.excl, False)
                if not valid_name(q[0]):
                    m = self._step(n, n.ns, q)
                    if m is not None:
                        m.ans = [("YX", q[1], [])]
                    continue
                z2 = self.sys.zone_for(n.ns, q[0])
                if z2 is not None:
                    m = self._step(n, n.ns, q)
                    if m is not None:
                        self._resolve(m, z2)
                else:
                    self._top(n, q)
            elif tag == "REF":
                pairs = []
                for r in recs:
                    if r[1] == "NS":
                        pairs.append([r[3], False])
                    elif pairs:
                        pairs[-1][1] = True
                for ns, glued in pairs:
                    side = None
                    if not glued and ns not in self.sys.tops:
                        key = ("", labels(ns), frozenset(("A", "AAAA")), False)
                        side = self.nodes.get(key)
                        if side is None:
                            side = self._new("", key[1], key[2], False, False)
                            self._top(side, (key[1], key[2], False, False))
                    m = self._step(n, ns, (n.name, n.types, n.excl, n.nonex), side)
                    if m is not None:
                        if ns not in self.sys.by_ns:
                            m.ans = [("NSNOTFOUND", n.types, [])]
                        else:
                            z2 = self.sys.zone_for(ns, n.name)
                            if z2 is None:
                                m.ans = [("REFUSED", n.types, [])]
                            else:
                                self._resolve(m, z2)

    # ---- executions ------------------------------------------------------------------------------------
    def executions(self, limit=1500):
        """(paths, end nodes): paths of nodes from the root; a CNAME node ends an execution when CNAME is asked."""
        paths, ends = [], []
        steps = [0]

        def end(n):
            if n not in ends:
                ends.append(n)

        def go(n, path, on):
            steps[0] += 1
            if steps[0] > limit * 4:
                raise TooBig
            if n.ns != "" and n.tag() == "REWRITE" and n.ans[0][2][0][1] == "CNAME" and "CNAME" in n.types:
                end(n)
                paths.append(path + [n])
            if n in on:
                return
            path = path + [n]
            on = on | {n}
            for t, _ in n.out:
                go(t, path, on)
            if not n.out:
                end(n)
                paths.append(path)
            if len(paths) > limit:
                raise TooBig
        go(self.root, [], frozenset())
        return paths, ends

    # ---- cycles ----------------------------------------------------------------------------------------
    def deps(self, n):
        o = []
        for t, s in n.out:
            if s is not None:
                o.append(s)
            o.append(t)
        return o

    def cyclic(self):
        """Whether the root can reach a cycle; raises TooBig when an exhaustive walk of simple paths is too long."""
        state = {}

        def go(n):
            state[n] = 1
            for t in self.deps(n):
                s = state.get(t)
                if s == 1 or (s is None and go(t)):
                    return True
            state[n] = 2
            return False
        return go(self.root)

    def walk_cost(self, limit=20000):
        """Steps of a search enumerating simple paths until the first cycle (to keep inputs tractable)."""
        c = [0]

        def go(n, on):
            c[0] += 1
            if c[0] > limit:
                raise TooBig
            if n in on:
                return True
            on = on | {n}
            for t, s in n.out:
                if s is not None and go(s, on):
                    return True
                if go(t, on):
                    return True
            return False
        go(self.root, frozenset())
        return c[0]


# ---- properties: each returns a list of expected entries ---------------------------------------------------
def p_hops(res, paths, ends, prop):
    out = []
    for p in paths:
        srv = []
        for n in p:
            if n.ns != "" and (not srv or srv[-1] != n.ns):
                srv.append(n.ns)
        if len(srv) > prop["Value"]:
            out.append({"Property": "Hops", "Query": p[0].q(),
                        "Violation": {"ActualHops": len(srv), "MaxAllowedHops": prop["Value"]}})
    return out


def p_rewrites(res, paths, ends, prop):
    out = []
    for p in paths:
        k = sum(1 for n in p if n.ns != "" and n.tag() == "REWRITE")
        if k > prop["Value"]:
            out.append({"Property": "Rewrites", "Query": p[0].q(),
                        "Violation": {"ActualRewrites": k, "MaxAllowedRewrites": prop["Value"]}})
    return out


def domlist(vals):
    return "[" + ", ".join(text(labels(v.lower())) for v in vals) + "]"


def allowed(vals, name):
    return any(under(labels(v.lower()), name) for v in vals)


def p_queryrewrite(res, paths, ends, prop):
    out = []
    if not prop["Value"]:
        return out
    for p in paths:
        for a, b in zip(p, p[1:]):
            if a.tag() == "REWRITE" and not allowed(prop["Value"], b.name):
                out.append({"Property": "Query Rewrite", "Query": a.q(),
                            "Violation": {"RewriteTarget": b.q(), "Nameserver": a.ns,
                                          "ExpectedUnder": domlist(prop["Value"])}})
    return out


def p_contact(res, paths, ends, prop):
    out = []
    if not prop["Value"]:
        return out
    for p in paths:
        for n in p:
            if n.ns != "" and not allowed(prop["Value"], labels(n.ns)):
                out.append({"Property": "Name Server Contact", "Query": n.q(),
                            "Violation": {"ExternalNameserver": n.ns, "AllowedDomains": domlist(prop["Value"])}})
    return out


def p_blackhole(res, paths, ends, prop):
    out = []
    for p in paths:
        for i, n in enumerate(p):
            if n.tag() == "REWRITE":
                if i < len(p) - 1 and p[-1].tag() == "NX":
                    out.append({"Property": "Rewrite Blackholing", "Query": n.q(),
                                "Violation": {"RewriteTarget": p[-1].q(), "BlackholeNameserver": p[-1].ns}})
                break
    return out


def p_aliases(res, paths, ends, prop):
    """(canonical, alias) pairs"""
    out = []
    canon = {labels(v.lower()) for v in prop["Value"]}
    for p in paths:
        for i, n in enumerate(p):
            if n.tag() == "REWRITE":
                for m in p[i + 1:]:
                    if not m.excl and m.name in canon:
                        out.append((m.q(), n.q()))
    return out


def split_ns_glue(recs):
    ns = [r for r in recs if r[1] == "NS"]
    tg = {labels(r[3]) for r in ns}
    glue = []
    for r in recs:
        if r[1] in ("A", "AAAA") and labels(r[0]) in tg and key(r) not in [key(g) for g in glue]:
            glue.append(r)
    return ns, glue


def key(r):
    return (labels(r[0]), r[1], r[3])


def p_delegation(res, paths, ends, prop):
    out = []
    for p in paths:
        if len(p) <= 2:
            continue
        q = p[0]
        pair = None
        for a, b in zip(p, p[1:]):
            if a.tag() == "REF" and b.tag() == "ANS" and b.ans[0][2] and "NS" in b.ans[0][1] and b.name == q.name:
                pair = (a, b)
        if not pair:
            continue
        a, b = pair
        pn, pg = split_ns_glue(a.ans[0][2])
        cn, cg = split_ns_glue(b.ans[0][2])
        if not pn or not cn or labels(pn[0][0]) != labels(cn[0][0]):
            continue
        dom = labels(cn[0][0])
        pg = [r for r in pg if under(dom, labels(r[0]))]
        for kind, x, y in (("NS", pn, cn), ("Glue", pg, cg)):
            if sorted(map(key, x)) != sorted(map(key, y)):
                out.append({"Property": "Delegation Consistency", "Query": q.q(),
                            "Violation": {"Nameserver1": a.ns, "Nameserver2": b.ns, "InconsistencyType": kind}})
    return out


def p_lame(res, paths, ends, prop):
    out = []
    for p in paths:
        for a, b in zip(p, p[1:]):
            if a.tag() == "REF" and b.tag() == "REFUSED" and b.name == p[0].name:
                out.append({"Property": "Lame Delegation", "Query": p[0].q(),
                            "Violation": {"Nameserver1": a.ns, "Nameserver2": b.ns}})
    return out


def p_dnamelen(res, paths, ends, prop):
    return [{"Property": "DNAME Substitution exceeds length", "Query": p[0].q(),
             "Violation": {"RewriteTarget": p[-1].q(), "Nameserver": p[-1].ns}}
            for p in paths if p[-1].tag() == "YX"]


def p_infdname(res, paths, ends, prop):
    out = []
    for p in paths:
        seen, done = {}, False
        for n in p:
            if n.tag() != "REWRITE":
                continue
            for _, _, recs in n.ans:
                for r in recs:
                    k = key(r)
                    if k in seen and len(n.name) >= seen[k][0]:
                        out.append({"Property": "Infinite DName Recursion", "Query1": seen[k][1], "Query2": n.q(),
                                    "RRsUsed": sorted(v[2] for v in seen.values())})
                        done = True
                        break
                    seen[k] = (len(n.name), n.q(), rrstr(r))
                if done:
                    break
            if done:
                break
    return out


def p_returned(res, paths, ends, prop):
    out, t = [], frozenset(prop["Types"])
    for n in ends:
        if n.nonex or not (n.types & t) or n.ns == "":
            continue
        if n.tag() in ("REFUSED", "NSNOTFOUND"):
            continue
        for tag, ty, recs in n.ans:
            if not recs and ty & t:
                out.append({"Property": "ResponseReturned", "Query": n.q(),
                            "Violation": {"Types": " ".join(sorted(ty & t)), "Nameserver": n.ns}})
    return out


def p_value(res, paths, ends, prop):
    t, want = frozenset(prop["Types"]), {v.lower() for v in prop["Value"]}
    if not want:
        return []
    mism = []
    for n in ends:
        if not (n.types & t):
            continue
        tag, _, recs = n.ans[0]
        if tag == "REWRITE" and "CNAME" not in t:
            continue
        if tag in ("ANS", "REWRITE"):
            tg = {labels(r[3]) for r in recs if r[1] == "NS"}
            got = {r[3] for r in recs if r[1] in t and
                   not (r[1] in ("A", "AAAA") and labels(r[0]) != n.name and labels(r[0]) in tg)}
        elif tag in ("NX", "YX"):
            got = set()
        else:
            continue
        # an expected set is not empty, so an empty set always differs
        if got != want or tag in ("NX", "YX"):
            mism.append({"Found": "".join(sorted(got)), "Query": n.q(), "Nameserver": n.ns})
    if not mism:
        return []
    return [{"Property": "Response Value", "Expected": "".join(sorted(want)), "Mismatches": mism}]


def consistency_state(res, paths, ends, prop):
    """'diff', 'same' or 'open' (only a missing name against an empty answer), and the accepted query texts."""
    t = frozenset(prop["Types"])
    first, cname, tags = None, [], set()
    diff = False
    for n in ends:
        if not (n.types & t) or n.ns == "" or n.tag() in ("REFUSED", "NSNOTFOUND"):
            continue
        recs = sorted(map(key, n.ans[0][2]))
        if "CNAME" in n.types:
            cname.append((n.tag(), recs))
        if n.tag() == "REWRITE":
            continue
        if first is None:
            first = recs
        elif first != recs:
            diff = True
    if cname:
        for tag, recs in cname[1:]:
            if recs != cname[0][1]:
                diff = True
            elif tag != cname[0][0]:
                tags.add(tag)
    st = "diff" if diff else ("open" if tags else "same")
    return st, {n.q() for n in ends}


def zerottl_state(res, paths, ends, prop):
    t = frozenset(prop["Types"])
    found = set()
    for n in ends:
        if not (n.types & t) or n.ns == "" or n.tag() in ("REFUSED", "NSNOTFOUND"):
            continue
        for r in n.ans[0][2]:
            if r[1] in t and r[2] == 0:
                found.add((n.ns, rrstr(r)))
    return found, {n.q() for n in ends}


SIMPLE = {"Hops": p_hops, "Rewrites": p_rewrites, "QueryRewrite": p_queryrewrite, "NameserverContact": p_contact,
          "RewriteBlackholing": p_blackhole, "DelegationConsistency": p_delegation, "LameDelegation": p_lame,
          "DNAMESubstitutionCheck": p_dnamelen, "InfiniteDNameRec": p_infdname, "ResponseReturned": p_returned,
          "ResponseValue": p_value}


# ---- structural delegation consistency ---------------------------------------------------------------------
def structural_entry(sys, node, display):
    """Expected entry for one name, or None.  node: the name in the zone data; display: the reported name."""
    hold = sys.holders.get(node, [])
    if not any("NS" in z.types.get(node, ()) for z in hold):
        return None
    par, chi, best = [], [], None
    for z in hold:
        ns = [r for r in z.at[node] if r[1] == "NS"]
        glue = [g for r in ns for g in z.glue(r[3])]
        if "SOA" in z.types[node]:
            need = any(under(z.origin, labels(r[3])) for r in ns)
            chi.append((z, ns, glue if need else None))
        else:
            if best is None or (len(z.origin) > len(best) and under(best, z.origin)):
                par, best = [(z, ns, glue)], z.origin
            elif z.origin == best:
                par.append((z, ns, glue))
    if chi:
        dom = chi[-1][0].origin
        par = [(z, ns, [g for g in glue if under(dom, labels(g[0]))]) for z, ns, glue in par]
    pairs = []

    def diff(x, y):
        kx, ky = {}, {}
        for r in x:
            kx.setdefault(key(r), []).append(rrstr(r))
        for r in y:
            ky.setdefault(key(r), []).append(rrstr(r))
        com, ex, ey = [], [], []
        for k in set(kx) | set(ky):
            a, b = kx.get(k, []), ky.get(k, [])
            m = min(len(a), len(b))
            com += a[:m]
            ex += a[m:]
            ey += b[m:]
        return sorted(com), sorted(ex), sorted(ey)

    def compare(a, b, la, lb, with_glue):
        dn = diff(a[1], b[1])
        dg = diff(a[2] or [], b[2] or []) if with_glue else None
        if not (dn[1] or dn[2] or (dg and (dg[1] or dg[2]))):
            return
        e = {la + " NS": a[0].ns, lb + " NS": b[0].ns}
        for nm, d in (("NS", dn), ("Glue", dg)):
            if d is None:
                continue
            if d[0]:
                e[f"Common {nm} Records"] = d[0]
            if d[1]:
                e[f"Exclusive {la} {nm} Records"] = d[1]
            if d[2]:
                e[f"Exclusive {lb} {nm} Records"] = d[2]
        pairs.append(e)
    for a in par:
        for b in chi:
            compare(a, b, "parent", "child", b[2] is not None)
    for i, a in enumerate(par):
        for b in par[i + 1:]:
            compare(a, b, "parent-a", "parent-b", True)
    for i, a in enumerate(chi):
        for b in chi[i + 1:]:
            compare(a, b, "child-a", "child-b", True)
    if not pairs:
        return None
    return {"Property": "Structural Delegation Consistency", "Domain Name": text(display), "Inconsistent Pairs": pairs}
