// Stand-in for moodycamel::ConcurrentQueue used by the schedule exploration and the race detector builds: one FIFO
// per producer thread under a lock; try_dequeue takes the head of any non-empty FIFO, so the order between producers is open.
#ifndef VF_CONCURRENTQUEUE_H
#define VF_CONCURRENTQUEUE_H
#include <cstddef>
#include <deque>
#include <iterator>
#include <list>
#include <mutex>
#include <thread>
#include <utility>
#include <vector>

extern "C" void vf_point(int kind);          // a scheduling point
extern "C" unsigned vf_pick(unsigned n);     // a choice of the schedule
extern "C" unsigned long vf_self();          // stable number of the calling thread

#ifdef VF_NOSCHED
// Race detector build: the queue itself orders nothing but the enqueueing of an item before its dequeueing.
#include <atomic>
#include <sched.h>
extern "C" {
void AnnotateIgnoreReadsBegin(const char *, int);
void AnnotateIgnoreReadsEnd(const char *, int);
void AnnotateIgnoreWritesBegin(const char *, int);
void AnnotateIgnoreWritesEnd(const char *, int);
void __tsan_acquire(void *);
void __tsan_release(void *);
}
namespace moodycamel
{
class Mutex
{
    std::atomic<int> f_{0};

  public:
    void lock()
    {
        int zero = 0;
        while (!f_.compare_exchange_weak(zero, 1, std::memory_order_relaxed)) {
            zero = 0;
            sched_yield();
        }
        std::atomic_signal_fence(std::memory_order_seq_cst);
        AnnotateIgnoreReadsBegin(__FILE__, __LINE__);
        AnnotateIgnoreWritesBegin(__FILE__, __LINE__);
    }
    void unlock()
    {
        AnnotateIgnoreWritesEnd(__FILE__, __LINE__);
        AnnotateIgnoreReadsEnd(__FILE__, __LINE__);
        std::atomic_signal_fence(std::memory_order_seq_cst);
        f_.store(0, std::memory_order_relaxed);
    }
};
inline void Publish(void *p)
{
    __tsan_release(p);
}
inline void Receive(void *p)
{
    __tsan_acquire(p);
}
} // namespace moodycamel
#else
namespace moodycamel
{
using Mutex = std::mutex;
inline void Publish(void *)
{
}
inline void Receive(void *)
{
}
} // namespace moodycamel
#endif

namespace moodycamel
{
struct ConcurrentQueueDefaultTraits {
};
struct ProducerToken {
    template <class... A> explicit ProducerToken(A &&...)
    {
    }
};
struct ConsumerToken {
    template <class... A> explicit ConsumerToken(A &&...)
    {
    }
};

template <typename T, typename Traits = ConcurrentQueueDefaultTraits> class ConcurrentQueue
{
    struct Sub {
        unsigned long producer;
        std::deque<T> items;
    };
    mutable Mutex m_;
    std::list<Sub> subs_;

    std::deque<T> &mine()
    {
        unsigned long me = vf_self();
        for (auto &s : subs_)
            if (s.producer == me)
                return s.items;
        subs_.emplace_back();
        subs_.back().producer = me;
        return subs_.back().items;
    }
    template <class U> bool take(U &out)
    {
        std::vector<Sub *> full;
        for (auto &s : subs_)
            if (!s.items.empty())
                full.push_back(&s);
        if (full.empty())
            return false;
        auto &q = full[full.size() > 1 ? vf_pick(static_cast<unsigned>(full.size())) : 0]->items;
        Receive(&q.front());
        out = std::move(q.front());
        q.pop_front();
        return true;
    }

  public:
    using producer_token_t = ProducerToken;
    using consumer_token_t = ConsumerToken;
    using value_type = T;
    using size_t = std::size_t;

    ConcurrentQueue(size_t = 0)
    {
    }
    ConcurrentQueue(size_t, size_t, size_t)
    {
    }
    ConcurrentQueue(ConcurrentQueue &&o) : subs_(std::move(o.subs_))
    {
    }
    ConcurrentQueue(const ConcurrentQueue &) = delete;
    ConcurrentQueue &operator=(const ConcurrentQueue &) = delete;
    ConcurrentQueue &operator=(ConcurrentQueue &&o)
    {
        subs_ = std::move(o.subs_);
        return *this;
    }

    bool enqueue(const T &v)
    {
        return enqueue(T(v));
    }
    bool enqueue(T &&v)
    {
        vf_point(1);
        std::lock_guard<Mutex> g(m_);
        auto &q = mine();
        q.push_back(std::move(v));
        Publish(&q.back());
        return true;
    }
    bool enqueue(const ProducerToken &, const T &v)
    {
        return enqueue(v);
    }
    bool enqueue(const ProducerToken &, T &&v)
    {
        return enqueue(std::move(v));
    }
    template <class... A> bool try_enqueue(A &&... a)
    {
        return enqueue(std::forward<A>(a)...);
    }
    template <class It> bool enqueue_bulk(It it, size_t n)
    {
        for (; n; --n, ++it)
            enqueue(*it);
        return true;
    }
    template <class It> bool enqueue_bulk(const ProducerToken &, It it, size_t n)
    {
        return enqueue_bulk(it, n);
    }
    template <class U> bool try_dequeue(U &out)
    {
        vf_point(2);
        bool ok;
        {
            std::lock_guard<Mutex> g(m_);
            ok = take(out);
        }
        if (!ok)
            vf_point(3);
        return ok;
    }
    template <class U> bool try_dequeue(ConsumerToken &, U &out)
    {
        return try_dequeue(out);
    }
    template <class U> bool try_dequeue_non_interleaved(U &out)
    {
        return try_dequeue(out);
    }
    template <class It> size_t try_dequeue_bulk(It it, size_t max)
    {
        vf_point(2);
        size_t n = 0;
        {
            std::lock_guard<Mutex> g(m_);
            T x;
            while (n < max && take(x)) {
                *it++ = std::move(x);
                n++;
            }
        }
        if (!n)
            vf_point(3);
        return n;
    }
    template <class It> size_t try_dequeue_bulk(ConsumerToken &, It it, size_t max)
    {
        return try_dequeue_bulk(it, max);
    }
    size_t size_approx() const
    {
        vf_point(4);
        std::lock_guard<Mutex> g(m_);
        size_t n = 0;
        for (auto &s : subs_)
            n += s.items.size();
        return n;
    }
    static constexpr bool is_lock_free()
    {
        return true;
    }
};
} // namespace moodycamel
#endif
