// Generated-scenario runner: reads one JSON case per line on stdin, runs it in a forked child that is
// linked with /repo/src, and writes one JSON result per line on stdout.
#include "../../repo/src/driver.h"
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <poll.h>
#include <signal.h>
#include <sstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#ifdef VF_SCHED
extern "C" void vf_sched_begin(unsigned long seed, int mode, long max_steps);
extern "C" long vf_sched_end();
#endif

// Only members that /repo/test itself uses are touched here.
class DriverTest
{
  public:
    static Context &ctx(Driver &d)
    {
        return d.context_;
    }
    static size_t violations(Driver &d)
    {
        return d.property_violations_.size();
    }
};

static string enc(const string &s)
{ // bytes -> code points 0..255 (the report must stay valid JSON whatever the bytes are)
    bool ascii = true;
    for (unsigned char c : s)
        if (c >= 128)
            ascii = false;
    if (ascii)
        return s;
    string o;
    for (unsigned char c : s) {
        if (c < 128)
            o += c;
        else {
            o += static_cast<char>(0xc0 | (c >> 6));
            o += static_cast<char>(0x80 | (c & 63));
        }
    }
    return o;
}

static string dec(const string &s)
{
    string o;
    for (size_t i = 0; i < s.size(); i++) {
        unsigned char c = s[i];
        if (c < 128)
            o += c;
        else {
            unsigned char d = s[++i];
            o += static_cast<char>(((c & 3) << 6) | (d & 63));
        }
    }
    return o;
}

static json types_json(const std::bitset<RRType::N> &b)
{
    json a = json::array();
    for (int i = 0; i < RRType::N; i++)
        if (b[i])
            a.push_back(TypeUtils::TypeToString(static_cast<RRType>(i)));
    return a;
}

static string type_str(RRType t)
{
    return t < RRType::N ? TypeUtils::TypeToString(t) : string("N");
}

static json rr_json(const ResourceRecord &r)
{
    return json::array(
        {enc(LabelUtils::LabelsToString(r.get_name())), type_str(r.get_type()), r.get_ttl(), enc(r.get_rdata())});
}

static const char *tag_names[] = {"ANS", "REWRITE", "REF", "NX", "REFUSED", "NSNOTFOUND", "YX"};

static json answers_json(const vector<zone::LookUpAnswer> &as)
{
    json o = json::array();
    for (auto &a : as) {
        json rr = json::array();
        for (auto &r : std::get<2>(a))
            rr.push_back(rr_json(r));
        o.push_back(json::array({tag_names[static_cast<int>(std::get<0>(a))], types_json(std::get<1>(a)), rr}));
    }
    return o;
}

static void zone_walk(const zone::Graph &g, zone::Graph::VertexDescriptor v, const string &name, json &nodes)
{
    json rrs = json::array();
    for (auto &r : g[v].rrs)
        rrs.push_back(rr_json(r));
    nodes.push_back(json::array({enc(name), rrs}));
    for (auto c : boost::make_iterator_range(adjacent_vertices(v, g))) {
        string l = g[c].name.get();
        zone_walk(g, c, name == "." ? l + "." : l + "." + name, nodes);
    }
}

static EC make_ec(const json &q)
{
    EC ec;
    ec.name = LabelUtils::StringToLabels(dec(q["name"].get<string>()));
    for (auto &t : q["types"])
        ec.rrTypes.set(TypeUtils::StringToType(t.get<string>()));
    if (q.value("excluded", false))
        ec.excluded = boost::make_optional(std::vector<NodeLabel>());
    return ec;
}

static string slurp(const string &f)
{
    std::ifstream i(f, ios::binary);
    std::stringstream s;
    s << i.rdbuf();
    return s.str();
}

static json run_case(const json &c)
{
    json res;
    for (auto &[k, v] : c["files"].items()) {
        std::ofstream o(k, ios::binary);
        o << dec(v.get<string>());
    }
    bool lint = c.value("lint", false);
    if (lint) {
        std::ofstream o("lint.json");
        o << "[\n";
    }
    try {
        Driver driver;
        json meta = c["meta"];
        res["rr_count"] = driver.SetContext(meta, ".", lint);
        Context &ctx = DriverTest::ctx(driver);
        if (c.contains("zones")) {
            json zs = json::array();
            std::vector<int> ids;
            for (auto &[id, z] : ctx.zoneId_to_zone)
                ids.push_back(id);
            std::sort(ids.begin(), ids.end());
            for (int id : ids) {
                const zone::Graph &g = ctx.zoneId_to_zone.at(id);
                json nodes = json::array();
                zone_walk(g, 0, ".", nodes);
                zs.push_back(
                    {{"ns", enc(ctx.zoneId_nameserver_map.at(id).get())},
                     {"origin", enc(LabelUtils::LabelsToString(g.get_origin()))},
                     {"nodes", nodes}});
            }
            res["zones"] = zs;
            json tc = json::object();
            for (auto &[k, v] : ctx.type_to_rr_count)
                tc[k] = v;
            res["types"] = tc;
        }
        if (c.contains("lookups")) {
            std::vector<int> ids;
            for (auto &[id, z] : ctx.zoneId_to_zone)
                ids.push_back(id);
            std::sort(ids.begin(), ids.end());
            json ls = json::array();
            for (auto &q : c["lookups"]) {
                size_t k = q["zone"].get<size_t>();
                if (k >= ids.size()) {
                    ls.push_back(nullptr);
                    continue;
                }
                bool complete = false;
                auto a = ctx.zoneId_to_zone.at(ids[k]).QueryLookUpAtZone(make_ec(q), complete);
                if (a)
                    ls.push_back(answers_json(a.get()));
                else
                    ls.push_back(nullptr);
            }
            res["lookups"] = ls;
        }
        if (c.contains("graphs")) {
            json gs = json::array();
            for (auto &q : c["graphs"]) {
                interpretation::Graph g(make_ec(q), ctx);
                json vs = json::array(), es = json::array();
                for (auto v : boost::make_iterator_range(vertices(g))) {
                    json a = nullptr;
                    if (g[v].answer)
                        a = answers_json(g[v].answer.get());
                    vs.push_back(json::array(
                        {enc(g[v].ns), enc(g[v].query.ToString()), types_json(g[v].query.rrTypes), a}));
                    for (auto e : boost::make_iterator_range(out_edges(v, g))) {
                        json iq = nullptr;
                        if (g[e].intermediate_query)
                            iq = g[e].intermediate_query.get();
                        es.push_back(json::array({v, e.m_target, iq}));
                    }
                }
                gs.push_back({{"v", vs}, {"e", es}});
            }
            res["graphs"] = gs;
        }
        json per_job = json::array();
        auto run_job = [&]() {
            driver.GenerateECsAndCheckProperties();
            json pj = {{"ec", driver.GetECCountForCurrentJob()}};
            if (c.value("cumulative", false)) {
                driver.WriteViolationsToFile("cum.json");
                pj["out"] = enc(slurp("cum.json"));
            }
            per_job.push_back(pj);
        };
#ifdef VF_SCHED
        if (c.contains("sched"))
            vf_sched_begin(
                c["sched"]["seed"].get<unsigned long>(), c["sched"].value("mode", 0),
                c["sched"].value("max_steps", 3000000L));
#endif
        if (c.contains("jobs") && c["jobs"].is_array()) {
            const json jobs = c["jobs"];
            for (auto &j : jobs) {
                if (j.is_null()) {
                    string x = ".";
                    driver.SetJob(x);
                } else
                    driver.SetJob(j);
                run_job();
            }
        }
#ifdef VF_SCHED
        if (c.contains("sched"))
            res["steps"] = vf_sched_end();
#endif
        res["jobs"] = per_job;
        driver.WriteViolationsToFile("output.json");
        res["n"] = DriverTest::violations(driver);
    } catch (const std::exception &e) {
        res["exception"] = enc(e.what());
    }
    if (lint)
        res["lint"] = enc(slurp("lint.json") + "\n]");
    res["out"] = enc(slurp("output.json"));
    return res;
}

int main(int argc, char **argv)
{
    std::ios::sync_with_stdio(false);
    string base = argc > 1 ? argv[1] : ".";
    signal(SIGPIPE, SIG_IGN);
    string line;
    long n = 0;
    while (std::getline(std::cin, line)) {
        n++;
        string dir = base + "/c" + std::to_string(n);
        mkdir(dir.c_str(), 0755);
        int fd[2];
        if (pipe(fd))
            return 3;
        pid_t pid = fork();
        if (pid == 0) {
            setpgid(0, 0);
            close(fd[0]);
            if (chdir(dir.c_str()))
                _exit(120);
            int ef = open("vf.err", O_CREAT | O_WRONLY | O_TRUNC, 0644);
            dup2(ef, 2);
            dup2(ef, 1);
            json c = json::parse(line);
            json r = run_case(c);
            string s = r.dump(-1, ' ', true, json::error_handler_t::replace);
            size_t off = 0;
            while (off < s.size()) {
                ssize_t k = write(fd[1], s.data() + off, s.size() - off);
                if (k <= 0)
                    _exit(121);
                off += k;
            }
            close(fd[1]);
            _exit(0);
        }
        close(fd[1]);
        long timeout_ms = 20000;
        {
            auto p = line.find("\"timeout_ms\":");
            if (p != string::npos)
                timeout_ms = atol(line.c_str() + p + 13);
        }
        string out;
        bool timed_out = false;
        struct timespec t0;
        clock_gettime(CLOCK_MONOTONIC, &t0);
        char buf[65536];
        for (;;) {
            struct timespec t1;
            clock_gettime(CLOCK_MONOTONIC, &t1);
            long el = (t1.tv_sec - t0.tv_sec) * 1000 + (t1.tv_nsec - t0.tv_nsec) / 1000000;
            if (el >= timeout_ms) {
                timed_out = true;
                break;
            }
            struct pollfd pf = {fd[0], POLLIN, 0};
            int pr = poll(&pf, 1, static_cast<int>(timeout_ms - el));
            if (pr <= 0)
                continue;
            ssize_t k = read(fd[0], buf, sizeof buf);
            if (k <= 0)
                break;
            out.append(buf, k);
        }
        close(fd[0]);
        if (timed_out) {
            kill(-pid, SIGKILL);
            kill(pid, SIGKILL);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        string err = slurp(dir + "/vf.err");
        string head;
        if (timed_out)
            head = "{\"status\":\"timeout\"";
        else if (WIFSIGNALED(st))
            head = "{\"status\":\"signal\",\"code\":" + std::to_string(WTERMSIG(st));
        else if (WEXITSTATUS(st) != 0 || out.empty())
            head = "{\"status\":\"exit\",\"code\":" + std::to_string(WEXITSTATUS(st));
        else
            head = "{\"status\":\"ok\",\"res\":" + out;
        if (!err.empty())
            head += ",\"err\":" + json(enc(err.size() > 6000 ? err.substr(0, 6000) : err)).dump();
        std::cout << head << "}\n" << std::flush;
        string cmd = dir;
        // the scratch directory is flat: remove its files, then itself
        boost::system::error_code e;
        boost::filesystem::remove_all(dir, e);
    }
    return 0;
}
