// Counters are relaxed: they must not create happens-before edges that hide races.
// Item payload used by the harnesses: heap-backed (so the sanitizers see stale
// accesses), knows when it is moved-from, and counts its instances.
#pragma once
#include "vh.hpp"

#include <exception>
#include <functional>
#include <utility>

struct Val
{
    static constexpr int            MOVED = -77777;
    static inline std::atomic<long> live{0}, copies{0}, moves{0}, moved_reads{0};

    int* p{};
    explicit Val(int v)
        : p(new int(v))
    {
        live.fetch_add(1, std::memory_order_relaxed);
    }
    Val()
        : Val(0)
    {
    }
    Val(const Val& o)
        : p(o.p ? new int(*o.p) : nullptr)
    {
        live.fetch_add(1, std::memory_order_relaxed);
        copies.fetch_add(1, std::memory_order_relaxed);
    }
    Val(Val&& o) noexcept
        : p(std::exchange(o.p, nullptr))
    {
        live.fetch_add(1, std::memory_order_relaxed);
        moves.fetch_add(1, std::memory_order_relaxed);
    }
    Val& operator=(const Val& o)
    {
        if (this != &o)
        {
            int* n = o.p ? new int(*o.p) : nullptr;
            delete p;
            p = n;
            copies.fetch_add(1, std::memory_order_relaxed);
        }
        return *this;
    }
    Val& operator=(Val&& o) noexcept
    {
        if (this != &o)
        {
            delete p;
            p = std::exchange(o.p, nullptr);
            moves.fetch_add(1, std::memory_order_relaxed);
        }
        return *this;
    }
    ~Val()
    {
        delete p;
        p = nullptr;
        live.fetch_sub(1, std::memory_order_relaxed);
    }
    int get() const
    {
        if (!p)
        {
            moved_reads.fetch_add(1, std::memory_order_relaxed);
            return MOVED;
        }
        return *p;
    }
    bool operator==(const Val& o) const { return get() == o.get(); }
    bool operator<(const Val& o) const { return get() < o.get(); }
};
template<>
struct std::hash<Val>
{
    size_t operator()(const Val& v) const noexcept { return std::hash<int>{}(v.get()); }
};

// exception type thrown by probes and by injected faults
struct VErr
{
    int code;
};

// token captured by user callbacks: every copy must be destroyed in the end
struct Tok
{
    static inline std::atomic<long> live{0};
    int*                            p{new int(42)};
    Tok() { live.fetch_add(1, std::memory_order_relaxed); }
    Tok(const Tok& o)
        : p(new int(*o.p))
    {
        live.fetch_add(1, std::memory_order_relaxed);
    }
    Tok(Tok&& o) noexcept
        : p(new int(*o.p))
    {
        live.fetch_add(1, std::memory_order_relaxed);
    }
    Tok& operator=(const Tok&) { return *this; }
    Tok& operator=(Tok&&) noexcept { return *this; }
    ~Tok()
    {
        live.fetch_sub(1, std::memory_order_relaxed);
        delete p;
    }
    void touch() const
    {
        if (*p != 42)
            vh::fail("callback-destroyed", "user callback invoked after its destruction");
    }
};
