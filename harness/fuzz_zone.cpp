// libFuzzer target: the bytes are the contents of a zone file, all loaded records are visited and
// looked up.
#include "../../repo/src/driver.h"
#include <csetjmp>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sys/stat.h>
#include <unistd.h>

class DriverTest
{
  public:
    static Context &ctx(Driver &d)
    {
        return d.context_;
    }
};

static jmp_buf out;
static bool running = false;

// Loading ends the program on some documented conditions.
extern "C" [[noreturn]] void __real_exit(int);
extern "C" [[noreturn]] void __wrap_exit(int code)
{
    if (running) {
        running = false;
        longjmp(out, 1 + code);
    }
    __real_exit(code);
}

static void walk(zone::Graph &g, zone::Graph::VertexDescriptor v, vector<NodeLabel> name, int &left)
{
    for (auto &r : g[v].rrs) {
        if (left-- <= 0)
            return;
        vector<vector<NodeLabel>> names = {r.get_name(), name};
        if (RRType::NS == r.get_type() || RRType::CNAME == r.get_type() || RRType::DNAME == r.get_type())
            names.push_back(LabelUtils::StringToLabels(r.get_rdata()));
        names.push_back(name);
        names.back().push_back(NodeLabel("zz"));
        for (auto &n : names) {
            EC ec;
            ec.name = n;
            ec.rrTypes.set();
            bool complete = false;
            g.QueryLookUpAtZone(ec, complete);
            ec.excluded = boost::make_optional(std::vector<NodeLabel>());
            g.QueryLookUpAtZone(ec, complete);
        }
    }
    for (auto c : boost::make_iterator_range(adjacent_vertices(v, g))) {
        auto n = name;
        n.push_back(g[c].name);
        walk(g, c, n, left);
    }
}

static int top_fd()
{
    int fd = dup(0);
    close(fd);
    return fd;
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
    {
        std::ofstream o("in.txt", ios::binary);
        o.write(reinterpret_cast<const char *>(data), static_cast<std::streamsize>(size));
    }
    bool lint = size && data[size - 1] % 4 == 0;
    int fd = top_fd();
    Driver *volatile driver = nullptr;
    if (setjmp(out) == 0) {
        running = true;
        driver = new Driver;
        json meta = {{"TopNameServers", {"ns.t."}},
                     {"ZoneFiles",
                      {{{"FileName", "in.txt"}, {"NameServer", "ns.t."}}}}};
        try {
            driver->SetContext(meta, ".", lint);
        } catch (...) {
            running = false;
            abort();   // unhandled by the program
        }
        int left = 200;
        for (auto &[id, z] : DriverTest::ctx(*driver).zoneId_to_zone)
            walk(z, 0, {}, left);
        running = false;
        delete driver;
    } else {
        for (int i = fd; i < fd + 16; i++)
            close(i);   // files left open by the interrupted load
    }
    return 0;
}
