// Replaces std::atomic in the code under test by a version with a scheduling point before every access.
#ifndef VF_ATOMIC_H
#define VF_ATOMIC_H
#include <atomic>
extern "C" void vf_point(int kind);
namespace std
{
template <class T> struct vf_atomic {
    std::atomic<T> a_;
    using value_type = T;
    vf_atomic() noexcept : a_(T())
    {
    }
    constexpr vf_atomic(T v) noexcept : a_(v)
    {
    }
    vf_atomic(const vf_atomic &) = delete;
    vf_atomic &operator=(const vf_atomic &) = delete;
    T load(memory_order = memory_order_seq_cst) const noexcept
    {
        vf_point(5);
        return a_.load();
    }
    void store(T v, memory_order = memory_order_seq_cst) noexcept
    {
        vf_point(6);
        a_.store(v);
    }
    operator T() const noexcept
    {
        return load();
    }
    T operator=(T v) noexcept
    {
        store(v);
        return v;
    }
    bool is_lock_free() const noexcept
    {
        return true;
    }
    T exchange(T v, memory_order = memory_order_seq_cst) noexcept
    {
        vf_point(6);
        return a_.exchange(v);
    }
    bool compare_exchange_strong(T &e, T v, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst) noexcept
    {
        vf_point(6);
        return a_.compare_exchange_strong(e, v);
    }
    bool compare_exchange_weak(T &e, T v, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst) noexcept
    {
        vf_point(6);
        return a_.compare_exchange_strong(e, v);
    }
#define VF_RMW(name)                                                                                                                       \
    T name(T v, memory_order = memory_order_seq_cst) noexcept                                                                              \
    {                                                                                                                                      \
        vf_point(6);                                                                                                                       \
        return a_.name(v);                                                                                                                 \
    }
    VF_RMW(fetch_add)
    VF_RMW(fetch_sub)
    VF_RMW(fetch_and)
    VF_RMW(fetch_or)
    VF_RMW(fetch_xor)
#undef VF_RMW
    T operator++() noexcept
    {
        return fetch_add(1) + 1;
    }
    T operator++(int) noexcept
    {
        return fetch_add(1);
    }
    T operator--() noexcept
    {
        return fetch_sub(1) - 1;
    }
    T operator--(int) noexcept
    {
        return fetch_sub(1);
    }
    T operator+=(T v) noexcept
    {
        return fetch_add(v) + v;
    }
    T operator-=(T v) noexcept
    {
        return fetch_sub(v) - v;
    }
};
} // namespace std
namespace fmt
{
template <class T, class C> struct formatter<std::vf_atomic<T>, C> : formatter<T, C> {
    template <class X> auto format(const std::vf_atomic<T> &v, X &ctx) const
    {
        return formatter<T, C>::format(v.load(), ctx);
    }
};
} // namespace fmt
#define atomic vf_atomic
#endif
