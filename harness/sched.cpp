// Controlled scheduler: between vf_sched_begin and vf_sched_end exactly one of the registered threads runs at a time, and
// at every scheduling point (queue and atomic operations, thread creation and join, locks, condition variables, yields) a
// seeded strategy decides which one goes on.
#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <map>
#include <pthread.h>
#include <random>
#include <sched.h>
#include <unistd.h>
#include <vector>

namespace
{
enum State { READY, BLOCKED, DONE };
struct Thread {
    int id;
    State state = READY;
    pthread_t handle{};
    pthread_cond_t wake;
    int joins = -1;               // blocked in a join of this thread
    const void *cond = nullptr;   // blocked on this condition variable
    const void *lock = nullptr;   // blocked on this mutex
    bool timed = false;
    double prio = 0;
    long idle = 0;
};

typedef int (*create_t)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
typedef int (*join_t)(pthread_t, void **);
typedef int (*mutex_t)(pthread_mutex_t *);
typedef int (*cond_t)(pthread_cond_t *);
typedef int (*wait_t)(pthread_cond_t *, pthread_mutex_t *);

template <class F> F real(const char *name)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
create_t r_create = real<create_t>("pthread_create");
join_t r_join = real<join_t>("pthread_join");
mutex_t r_lock = real<mutex_t>("pthread_mutex_lock");
mutex_t r_try = real<mutex_t>("pthread_mutex_trylock");
mutex_t r_unlock = real<mutex_t>("pthread_mutex_unlock");
cond_t r_signal = reinterpret_cast<cond_t>(dlvsym(RTLD_NEXT, "pthread_cond_signal", "GLIBC_2.3.2"));
cond_t r_bcast = reinterpret_cast<cond_t>(dlvsym(RTLD_NEXT, "pthread_cond_broadcast", "GLIBC_2.3.2"));
wait_t r_wait = reinterpret_cast<wait_t>(dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2"));

pthread_mutex_t big = PTHREAD_MUTEX_INITIALIZER;
volatile bool active = false;
std::vector<Thread *> threads;
int current = -1;
long steps = 0, max_steps = 0;
int mode = 0;
std::mt19937_64 rng;
std::vector<long> changes;   // PCT: steps at which the running thread's priority drops
double low = 0;
int victim = -1;             // mode 3: the thread that is held back
long victim_until = 0;
int burst = 0;
thread_local Thread *self = nullptr;
thread_local int inside = 0;

unsigned long rnd(unsigned long n)
{
    return n ? rng() % n : 0;
}

[[noreturn]] void stop(int code, const char *msg)
{
    fprintf(stderr, "scheduler: %s after %ld steps\n", msg, steps);
    for (auto t : threads)
        fprintf(stderr, "  thread %d %s%s\n", t->id, t->state == READY ? "ready" : t->state == DONE ? "done" : "blocked", t->id == current ? " (running)" : "");
    fflush(stderr);
    _exit(code);
}

// With big held: chooses the next thread. hint: the caller made no progress.
Thread *choose(Thread *me, bool hint)
{
    std::vector<Thread *> ready;
    for (auto t : threads)
        if (t->state == READY)
            ready.push_back(t);
    if (ready.empty()) {
        for (auto t : threads)
            if (t->state == BLOCKED && t->timed) {
                t->state = READY;
                ready.push_back(t);
            }
        if (ready.empty())
            stop(75, "deadlock");
    }
    bool me_ready = me && me->state == READY;
    if (steps > max_steps / 2) {   // fair from here on
        if (steps > max_steps)
            stop(76, "no termination under a fair schedule");
        Thread *best = ready[0];
        for (auto t : ready)
            if (me && t->id > me->id && (best->id <= me->id || t->id < best->id))
                best = t;
        return best;
    }
    switch (mode) {
    case 1:   // long bursts
        if (me_ready && !hint && burst-- > 0)
            return me;
        burst = static_cast<int>(rnd(40));
        return ready[rnd(ready.size())];
    case 2: {   // priorities with change points
        while (!changes.empty() && steps >= changes.back()) {
            changes.pop_back();
            if (me)
                me->prio = --low;
        }
        if (hint && me && ++me->idle % 3 == 0)
            me->prio = --low;   // spinning must not starve the others
        Thread *best = ready[0];
        for (auto t : ready)
            if (t->prio > best->prio)
                best = t;
        return best;
    }
    case 3: {   // one thread is held back for a while
        if (steps >= victim_until) {
            std::vector<Thread *> live;
            for (auto t : threads)
                if (t->state != DONE)
                    live.push_back(t);
            victim = live[rnd(live.size())]->id;
            victim_until = steps + 10 + static_cast<long>(rnd(rnd(2) ? 100 : 3000));
        }
        std::vector<Thread *> rest;
        for (auto t : ready)
            if (t->id != victim)
                rest.push_back(t);
        if (rest.empty())
            rest = ready;
        if (me_ready && me->id != victim && !hint && rnd(4))
            return me;
        return rest[rnd(rest.size())];
    }
    default:
        return ready[rnd(ready.size())];
    }
}

// With big held: gives the processor to next and waits for the caller's turn.
void hand_over(Thread *me, Thread *next, bool wait)
{
    if (next == me)
        return;
    current = next->id;
    r_signal(&next->wake);
    if (wait)
        while (current != me->id)
            r_wait(&me->wake, &big);
}

void reschedule(Thread *me, bool hint)
{
    steps++;
    hand_over(me, choose(me, hint), true);
}

Thread *add_thread()
{
    Thread *t = new Thread;
    t->id = static_cast<int>(threads.size());
    pthread_cond_init(&t->wake, nullptr);
    t->prio = 1000.0 + static_cast<double>(rnd(1000000)) / 1000;
    threads.push_back(t);
    return t;
}

struct Start {
    void *(*fn)(void *);
    void *arg;
    Thread *t;
};

void *trampoline(void *p)
{
    Start s = *static_cast<Start *>(p);
    delete static_cast<Start *>(p);
    self = s.t;
    r_lock(&big);
    while (current != self->id)
        r_wait(&self->wake, &big);
    r_unlock(&big);
    void *ret = s.fn(s.arg);
    r_lock(&big);
    self->state = DONE;
    for (auto t : threads)
        if (t->state == BLOCKED && t->joins == self->id) {
            t->joins = -1;
            t->state = READY;
        }
    steps++;
    hand_over(self, choose(self, false), false);
    self = nullptr;
    r_unlock(&big);
    return ret;
}

bool on()
{
    return active && self && !inside;
}

void *watchdog(void *)
{
    long last = -1;
    double last_cpu = -1;
    int still = 0;
    for (;;) {
        struct timespec d = {0, 250000000};
        clock_nanosleep(CLOCK_MONOTONIC, 0, &d, nullptr);
        if (!active) {
            still = 0;
            continue;
        }
        struct timespec c;
        clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &c);
        double cpu = static_cast<double>(c.tv_sec) + static_cast<double>(c.tv_nsec) * 1e-9;
        long now = steps;
        still = (now == last && cpu - last_cpu < 0.02) ? still + 1 : 0;
        last = now;
        last_cpu = cpu;
        if (still >= 24)
            stop(78, "blocked outside of the scheduler");
    }
    return nullptr;
}
} // namespace

extern "C" {
void vf_sched_begin(unsigned long seed, int m, long max)
{
    rng.seed(seed);
    mode = m;
    max_steps = max;
    steps = 0;
    threads.clear();
    changes.clear();
    low = 0;
    victim = -1;
    victim_until = static_cast<long>(rnd(rnd(2) ? 20 : 400));
    burst = 0;
    if (mode == 2) {
        int d = 1 + static_cast<int>(rnd(12));
        for (int i = 0; i < d; i++)
            changes.push_back(static_cast<long>(rnd(rnd(3) ? 300 : 6000)));
        std::sort(changes.rbegin(), changes.rend());
    }
    static bool dog = false;
    if (!dog) {
        dog = true;
        pthread_t w;
        r_create(&w, nullptr, watchdog, nullptr);
        pthread_detach(w);
    }
    self = add_thread();
    current = self->id;
    active = true;
}

long vf_sched_end()
{
    r_lock(&big);
    active = false;
    self = nullptr;
    r_unlock(&big);
    return steps;
}

void vf_point(int kind)
{
    if (!on())
        return;
    r_lock(&big);
    reschedule(self, kind == 3 || kind == 7);
    r_unlock(&big);
}

unsigned vf_pick(unsigned n)
{
    return on() ? static_cast<unsigned>(rnd(n)) : 0;
}

unsigned long vf_self()
{
    return self ? static_cast<unsigned long>(self->id) : 1000000UL + static_cast<unsigned long>(pthread_self());
}

int pthread_create(pthread_t *h, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
    if (!on())
        return r_create(h, a, fn, arg);
    r_lock(&big);
    Thread *t = add_thread();
    inside++;
    int rc = r_create(h, a, trampoline, new Start{fn, arg, t});
    inside--;
    if (rc) {
        t->state = DONE;
        r_unlock(&big);
        return rc;
    }
    t->handle = *h;
    reschedule(self, false);
    r_unlock(&big);
    return 0;
}

int pthread_join(pthread_t h, void **ret)
{
    if (!on())
        return r_join(h, ret);
    r_lock(&big);
    for (auto t : threads)
        if (t->id && pthread_equal(t->handle, h) && t != self) {
            while (t->state != DONE) {
                self->joins = t->id;
                self->state = BLOCKED;
                reschedule(self, false);
            }
            t->handle = pthread_t{};
            break;
        }
    r_unlock(&big);
    return r_join(h, ret);
}

int pthread_mutex_lock(pthread_mutex_t *m)
{
    if (!on())
        return r_lock(m);
    r_lock(&big);
    int rc;
    while ((rc = r_try(m)) == EBUSY) {
        self->lock = m;
        self->state = BLOCKED;
        reschedule(self, true);
    }
    r_unlock(&big);
    return rc;
}

int pthread_mutex_unlock(pthread_mutex_t *m)
{
    int rc = r_unlock(m);
    if (on()) {
        r_lock(&big);
        for (auto t : threads)
            if (t->state == BLOCKED && t->lock == m) {
                t->lock = nullptr;
                t->state = READY;
            }
        r_unlock(&big);
    }
    return rc;
}

static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, bool timed)
{
    pthread_mutex_unlock(m);
    r_lock(&big);
    self->cond = c;
    self->timed = timed;
    self->state = timed && rnd(8) == 0 ? READY : BLOCKED;
    reschedule(self, true);
    bool woken = self->cond == nullptr;
    self->cond = nullptr;
    self->timed = false;
    r_unlock(&big);
    pthread_mutex_lock(m);
    return timed && !woken ? ETIMEDOUT : 0;
}

int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    return on() ? cond_wait(c, m, false) : r_wait(c, m);
}

int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t)
{
    typedef int (*tw_t)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
    static tw_t r = reinterpret_cast<tw_t>(dlvsym(RTLD_NEXT, "pthread_cond_timedwait", "GLIBC_2.3.2"));
    return on() ? cond_wait(c, m, true) : r(c, m, t);
}

int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t)
{
    typedef int (*cw_t)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *);
    static cw_t r = real<cw_t>("pthread_cond_clockwait");
    return on() ? cond_wait(c, m, true) : r(c, m, k, t);
}

int pthread_cond_signal(pthread_cond_t *c)
{
    if (!on())
        return r_signal(c);
    r_lock(&big);
    std::vector<Thread *> w;
    for (auto t : threads)
        if (t->cond == c && t->state != DONE)
            w.push_back(t);
    if (!w.empty()) {
        Thread *t = w[rnd(w.size())];
        t->cond = nullptr;
        t->state = READY;
    }
    r_unlock(&big);
    return 0;
}

int pthread_cond_broadcast(pthread_cond_t *c)
{
    if (!on())
        return r_bcast(c);
    r_lock(&big);
    for (auto t : threads)
        if (t->cond == c && t->state != DONE) {
            t->cond = nullptr;
            t->state = READY;
        }
    r_unlock(&big);
    return 0;
}

int sched_yield()
{
    if (on()) {
        vf_point(7);
        return 0;
    }
    static auto r = real<int (*)()>("sched_yield");
    return r();
}

int nanosleep(const struct timespec *a, struct timespec *b)
{
    if (on()) {
        vf_point(7);
        return 0;
    }
    static auto r = real<int (*)(const struct timespec *, struct timespec *)>("nanosleep");
    return r(a, b);
}

int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b)
{
    if (on()) {
        vf_point(7);
        return 0;
    }
    static auto r = real<int (*)(clockid_t, int, const struct timespec *, struct timespec *)>("clock_nanosleep");
    return r(c, f, a, b);
}

int usleep(useconds_t u)
{
    if (on()) {
        vf_point(7);
        return 0;
    }
    static auto r = real<int (*)(useconds_t)>("usleep");
    return r(u);
}
}
