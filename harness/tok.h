// Element and allocator stand-ins: declared, never defined.  Their effect is given by the analysis model,
// so every theorem about a container holds for every element type with these operations.
#pragma once
#include <rpp/base.h>
using namespace rpp;
struct Tok {
    u64 x[3];
    Tok() noexcept;
    explicit Tok(i32) noexcept;
    Tok(Tok&&) noexcept;
    Tok& operator=(Tok&&) noexcept;
    ~Tok() noexcept;
    Tok clone() const noexcept;
    bool operator==(const Tok&) const noexcept;
    bool operator<(const Tok&) const noexcept;
};
struct TokC {
    u64 x[3];
    TokC() noexcept;
    explicit TokC(i32) noexcept;
    TokC(const TokC&) noexcept;
    TokC& operator=(const TokC&) noexcept;
    TokC(TokC&&) noexcept;
    TokC& operator=(TokC&&) noexcept;
    ~TokC() noexcept;
    bool operator==(const TokC&) const noexcept;
    bool operator<(const TokC&) const noexcept;
};
struct Triv {
    u64 x[3];
    bool operator==(const Triv&) const noexcept;
    bool operator<(const Triv&) const noexcept;
};
// distinct alternatives
template<i32 N>
struct TokN {
    u64 x[3];
    TokN(TokN&&) noexcept;
    TokN& operator=(TokN&&) noexcept;
    ~TokN() noexcept;
    TokN clone() const noexcept;
};
template<u64 N>
struct Al {
    constexpr static Literal name = "Al";
    static void* alloc(u64) noexcept;
    static void free(void*) noexcept;
};
