#!/bin/bash
# Builds the program with the race detector and a plain locked queue in a scratch directory; a reported race fails.
here="$(cd "$(dirname "$0")" && pwd)"
out="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf "$out"' EXIT
mkdir -p "$out/inc/concurrentqueue"
cat > "$out/inc/concurrentqueue/concurrentqueue.h" <<'H'
#ifndef DEMO_QUEUE
#define DEMO_QUEUE
#include <atomic>
#include <deque>
#include <mutex>
#include <thread>
namespace moodycamel {
template <class T> class ConcurrentQueue {
    mutable std::mutex m;
    std::deque<T> q;
  public:
    template <class U = T> bool enqueue(U &&x) { std::lock_guard<std::mutex> g(m); q.push_back(std::forward<U>(x)); return true; }
    template <class U> bool try_dequeue(U &x) { std::lock_guard<std::mutex> g(m); if (q.empty()) return false; x = std::move(q.front()); q.pop_front(); return true; }
    size_t size_approx() const { std::lock_guard<std::mutex> g(m); return q.size(); }
};
}
#endif
H
F="-std=c++17 -O1 -fsanitize=thread -DSPDLOG_FMT_EXTERNAL -DSPDLOG_SHARED_LIB -DSPDLOG_COMPILED_LIB -DFMT_SHARED -DBOOST_BIND_GLOBAL_PLACEHOLDERS -w -I$out/inc/concurrentqueue"
cat > "$out/main.cpp" <<H
#include "$PWD/src/driver.h"
#include <spdlog/sinks/null_sink.h>
int main(int, char **v)
{
    Logger->bind(spdlog::null_logger_mt("demo"));
    for (int k = 0; k < 20; k++) {
        Driver d;
        std::ifstream f(std::string(v[1]) + "/metadata.json");
        json m;
        f >> m;
        d.SetContext(m, v[1], false);
        std::string dom = "t.";
        d.SetJob(dom);
        d.GenerateECsAndCheckProperties();
    }
}
H
ls "$PWD"/src/*.cpp "$out"/main.cpp | xargs -P 8 -I{} sh -c "g++ $F -c {} -o $out/\$(basename {}).o" || exit 3
g++ -fsanitize=thread "$out"/*.o -o "$out/prog" -lspdlog -lfmt -lboost_filesystem -lboost_system -lpthread || exit 3
cd "$out" && mkdir z
echo 't. 300 IN SOA ns1.t. host.t. 3 2 3 4 5
t. 300 IN NS ns1.t.
ns1.t. 300 IN A 1.0.0.1
x.t. 300 IN CNAME y.t.' > z/t.txt
echo '{"TopNameServers": ["ns1.t."], "ZoneFiles": [{"FileName": "t.txt", "NameServer": "ns1.t."}]}' > z/metadata.json
TSAN_OPTIONS="exitcode=66" timeout 120 ./prog z > o.txt 2>&1
rc=$?
grep -A12 "WARNING: ThreadSanitizer" o.txt | head -30
[ $rc = 0 ] && echo "no race"
exit $rc
