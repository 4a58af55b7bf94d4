// The register machine behind every conformance check: a fixed set of library objects
// ("registers") and one C++ statement per public operation of the library.
//
//   0..3 Aeu<N>   4..7 Aesi<N>   8,9 Aeu<M>   10,11 Aesi<M>   12 const Aeu<N>   13 const Aesi<N>
//
// Everything in this file is usable in constant expressions; text, streams and GMP are in io.h.
// Which operations are compiled is chosen with -DF_... (a whole interpreter for every
// width would take long to build).
#pragma once
#ifdef F_GMP
#define AESI_GMP_INTEGRATION
#endif
#include <AesiMultiprecision/Aeu.h>
#include <AesiMultiprecision/Aesi.h>
#include <array>
#include <compare>
#include <cstdint>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>

enum class Ty : int { u8, u16, u32, u64, ull, i8, i16, i32, i64, ll, bl, c8, c16, c32, wc, none };

enum class Op : int {
    load, add, sub, mul, div, mod, band, bor, bxor, bnot, neg, pos, inv, inc, dec, shl, shr, cmp, dm, gcd, xgcd, lcm,
    powm, sqrt, pow2, setbit, setbyte, setblk, getbit, getbyte, getblk, qry, cons, icast, pcast, ucast, fromu, copy, swap,
    // below: run time only
    parse, out, insq, gstr, wbin, rbin, outf, wbinf, mpz, mpzeq, reset, none
};
// rc: as ri with a const object; move: with std::move, for swap std::swap; ctor / asg: construction / assignment; m, t, x: powm overloads
enum class Form : int { none, rr, ri, rc, ir, asg_r, asg_i, pre, post, m, t, x, out, pair, ctor, asg, member, prior, move };

struct Cmd {
    Op op = Op::none; Form f = Form::none; Ty t = Ty::none;
    int d = -1, d2 = -1, d3 = -1, a = -1, b = -1, p = -1, mm = -1;
    bool neg = false;              // literal sign
    std::uint64_t k = 0;           // literal magnitude
    std::uint64_t n = 0;           // index, shift amount, exponent
    std::uint64_t v = 0;           // field value
};

constexpr std::size_t MAXBLK = (N > M ? N : M) / 32;
struct Val { int s = 0; std::size_t len = 0; std::array<std::uint32_t, MAXBLK < 2 ? 2 : MAXBLK> b {}; };
struct Out {
    bool hasVal = false; Val val {};
    int nInts = 0; std::array<long long, 12> ints {};
    int self = 0;                  // 0, or 1 / 2: assignments, ++x, --x: the expression denotes the object itself / something else
    constexpr void add(long long v) { ints[static_cast<std::size_t>(nInts++)] = v; }
};

template <typename T> struct IsAesi : std::false_type {};
template <std::size_t B> struct IsAesi<Aesi<B>> : std::true_type {};

// ---------------------------------------------------------------- observation and loading
// rawZero: report the blocks of an object that says it is zero, too.
template <typename T> constexpr Val observe(const T& x, bool rawZero) {
    Val v; const std::size_t n = T::totalBlocksNumber();
    for(std::size_t i = 0; i < n; ++i) v.b[i] = x.getBlock(i);
    v.len = n; while(v.len > 0 && v.b[v.len - 1] == 0) --v.len;
    if constexpr (IsAesi<T>::value) {
        const bool z = x.isZero(), ng = x.isNegative(), ps = x.isPositive();
        v.s = (z && !ng && !ps) ? 0 : (ng && !z && !ps) ? -1 : (ps && !z && !ng) ? 1 : 9;
        if(z && !rawZero) v.len = 0;
    } else v.s = v.len ? 1 : 0;
    return v;
}
constexpr bool same(const Val& x, const Val& y) {
    if(x.s != y.s || x.len != y.len) return false;
    for(std::size_t i = 0; i < x.len; ++i) if(x.b[i] != y.b[i]) return false;
    return true;
}
template <typename T> constexpr void load(T& x, const Val& v) {
    if constexpr (IsAesi<T>::value) {
        if(v.s == 0) { x = T(0); return; }
        T t(1);
        for(std::size_t i = 0; i < T::totalBlocksNumber(); ++i) t.setBlock(i, i < v.len ? v.b[i] : 0u);
        if(v.s < 0) t.inverse();
        x = t;
    } else {
        T t(0u);
        for(std::size_t i = 0; i < T::totalBlocksNumber(); ++i) t.setBlock(i, i < v.len ? v.b[i] : 0u);
        x = t;
    }
}

// ---------------------------------------------------------------- registers
constexpr std::uint32_t GUARD = 0xA5C396E1u;
template <typename T> struct Cell {
    std::array<std::uint32_t, 4> g0 { GUARD, GUARD, GUARD, GUARD };
    T v {};
    std::array<std::uint32_t, 4> g1 { GUARD, GUARD, GUARD, GUARD };
    constexpr bool ok() const {
        for(auto x: g0) if(x != GUARD) return false;
        for(auto x: g1) if(x != GUARD) return false;
        return true;
    }
};
struct Shared { Aeu<N> u {}; Aesi<N> s {}; };

struct Regs {
    std::array<Cell<Aeu<N>>, 4> u {};
    std::array<Cell<Aesi<N>>, 4> s {};
    std::array<Cell<Aeu<M>>, 2> v {};
    std::array<Cell<Aesi<M>>, 2> x {};
    const Shared* sh = nullptr;
    constexpr bool guards() const {
        for(const auto& c: u) if(!c.ok()) return false;
        for(const auto& c: s) if(!c.ok()) return false;
        for(const auto& c: v) if(!c.ok()) return false;
        for(const auto& c: x) if(!c.ok()) return false;
        return true;
    }
};
constexpr bool isS(int id) { return (id >= 4 && id <= 7) || id == 10 || id == 11 || id == 13; }
constexpr bool isM(int id) { return id >= 8 && id <= 11; }

constexpr Aeu<N>& U(Regs& r, int id) { return r.u[static_cast<std::size_t>(id)].v; }
constexpr Aesi<N>& S(Regs& r, int id) { return r.s[static_cast<std::size_t>(id - 4)].v; }
constexpr Aeu<M>& UM(Regs& r, int id) { return r.v[static_cast<std::size_t>(id - 8)].v; }
constexpr Aesi<M>& SM(Regs& r, int id) { return r.x[static_cast<std::size_t>(id - 10)].v; }
constexpr const Aeu<N>& cU(const Regs& r, int id) { return id == 12 ? r.sh->u : r.u[static_cast<std::size_t>(id)].v; }
constexpr const Aesi<N>& cS(const Regs& r, int id) { return id == 13 ? r.sh->s : r.s[static_cast<std::size_t>(id - 4)].v; }
constexpr const Aeu<M>& cUM(const Regs& r, int id) { return r.v[static_cast<std::size_t>(id - 8)].v; }
constexpr const Aesi<M>& cSM(const Regs& r, int id) { return r.x[static_cast<std::size_t>(id - 10)].v; }

constexpr Val observeReg(const Regs& r, int id, bool rawZero) {
    if(isM(id)) return isS(id) ? observe(cSM(r, id), rawZero) : observe(cUM(r, id), rawZero);
    return isS(id) ? observe(cS(r, id), rawZero) : observe(cU(r, id), rawZero);
}
constexpr void loadReg(Regs& r, int id, const Val& v) {
    if(isM(id)) { if(isS(id)) load(SM(r, id), v); else load(UM(r, id), v); }
    else { if(isS(id)) load(S(r, id), v); else load(U(r, id), v); }
}

// ---------------------------------------------------------------- literals of built-in type
template <typename T> constexpr T lit(const Cmd& c) {
    if constexpr (std::is_same_v<T, bool>) return c.k != 0;
    else return static_cast<T>(c.neg ? std::uint64_t { 0 } - c.k : c.k);
}
template <typename F> constexpr void withUnsigned(const Cmd& c, F&& f) {
    switch(c.t) {
        case Ty::u8: f(lit<std::uint8_t>(c)); break;
        case Ty::u16: f(lit<std::uint16_t>(c)); break;
        case Ty::u32: f(lit<std::uint32_t>(c)); break;
        case Ty::u64: f(lit<std::uint64_t>(c)); break;
        case Ty::ull: f(lit<unsigned long long>(c)); break;
        default: break;
    }
}
template <typename F> constexpr void withIntegral(const Cmd& c, F&& f) {
    switch(c.t) {
        case Ty::i8: f(lit<std::int8_t>(c)); break;
        case Ty::i16: f(lit<std::int16_t>(c)); break;
        case Ty::i32: f(lit<std::int32_t>(c)); break;
        case Ty::i64: f(lit<std::int64_t>(c)); break;
        case Ty::ll: f(lit<long long>(c)); break;
        default: withUnsigned(c, f);
    }
}
template <typename F> constexpr void withAny(bool isSigned, const Cmd& c, F&& f) {   // also bool and characters
    switch(c.t) {
        case Ty::bl: f(lit<bool>(c)); break;
        case Ty::c16: f(lit<char16_t>(c)); break;
        case Ty::c32: f(lit<char32_t>(c)); break;
        default: withUnsigned(c, f);
    }
    (void) isSigned;
}

// ---------------------------------------------------------------- binary operators
// The value of an expression that should denote x, and whether it does.
template <typename T, typename R> constexpr Val denoted(R&& result, const T& x, Out& o, bool raw) {
    if constexpr (std::is_lvalue_reference_v<R>) o.self = &result == &x ? 1 : 2;
    else o.self = 2;
    const T v = result;
    return observe(v, raw);
}
#define BINOP(NAME, OPR) \
    struct NAME { \
        template <typename A, typename B> static constexpr auto bin(A& x, B& y) { return x OPR y; } \
        template <typename T, typename A, typename B> static constexpr Val asg(A& x, B& y, Out& o, bool raw) { return denoted<T>(x OPR##= y, x, o, raw); } \
    };
BINOP(AddOp, +) BINOP(SubOp, -) BINOP(MulOp, *) BINOP(DivOp, /) BINOP(ModOp, %) BINOP(AndOp, &) BINOP(OrOp, |) BINOP(XorOp, ^)

template <typename Oper> constexpr void binU(Regs& r, const Cmd& c, Out& o) {
    using T = Aeu<N>;
    switch(c.f) {
        case Form::rr: { const T v = Oper::bin(cU(r, c.a), cU(r, c.b)); o.val = observe(v, false); U(r, c.d) = v; break; }
        case Form::asg_r: { o.val = Oper::template asg<T>(U(r, c.d), cU(r, c.b), o, false); break; }
        case Form::ri: withUnsigned(c, [&](auto k) { const T v = Oper::bin(U(r, c.a), k); o.val = observe(v, false); U(r, c.d) = v; }); break;
        case Form::rc: withUnsigned(c, [&](auto k) { const T v = Oper::bin(cU(r, c.a), k); o.val = observe(v, false); U(r, c.d) = v; }); break;
        case Form::ir: withUnsigned(c, [&](auto k) { const T v = Oper::bin(k, cU(r, c.a)); o.val = observe(v, false); U(r, c.d) = v; }); break;
        case Form::asg_i: withUnsigned(c, [&](auto k) { o.val = Oper::template asg<T>(U(r, c.d), k, o, false); }); break;
        default: break;
    }
    o.hasVal = true;
}
template <typename Oper> constexpr void binS(Regs& r, const Cmd& c, Out& o, bool raw) {
    using T = Aesi<N>;
    switch(c.f) {
        case Form::rr: { const T v = Oper::bin(cS(r, c.a), cS(r, c.b)); o.val = observe(v, raw); S(r, c.d) = v; break; }
        case Form::asg_r: { o.val = Oper::template asg<T>(S(r, c.d), cS(r, c.b), o, raw); break; }
        case Form::ri: withIntegral(c, [&](auto k) { const T v = Oper::bin(S(r, c.a), k); o.val = observe(v, raw); S(r, c.d) = v; }); break;
        case Form::rc: withIntegral(c, [&](auto k) { const T v = Oper::bin(cS(r, c.a), k); o.val = observe(v, raw); S(r, c.d) = v; }); break;
        case Form::ir: withIntegral(c, [&](auto k) { const T v = Oper::bin(k, cS(r, c.a)); o.val = observe(v, raw); S(r, c.d) = v; }); break;
        case Form::asg_i: withIntegral(c, [&](auto k) { o.val = Oper::template asg<T>(S(r, c.d), k, o, raw); }); break;
        default: break;
    }
    o.hasVal = true;
}

constexpr int ordInt(std::strong_ordering x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }
template <typename C> constexpr int cmpInt(C x) { return x == C::equal ? 0 : x == C::less ? -1 : x == C::greater ? 1 : 7; }
template <typename A, typename B> constexpr void relations(const A& x, const B& y, Out& o) {
    o.add(x == y); o.add(x != y); o.add(x < y); o.add(x <= y); o.add(x > y); o.add(x >= y); o.add(ordInt(x <=> y));
}
template <typename T, typename Other> constexpr void compareAll(const T& x, const Other& y, Out& o) {
    relations(x, y, o); o.add(cmpInt(x.compareTo(y)));
}
template <typename T> constexpr void queries(const T& x, Out& o) {
    o.add(static_cast<long long>(x.bitCount())); o.add(static_cast<long long>(x.byteCount()));
    o.add(static_cast<long long>(x.filledBlocksNumber()));
    o.add(x.isOdd()); o.add(x.isEven()); o.add(x.isZero());
    o.add(static_cast<long long>(T::getBitness())); o.add(static_cast<long long>(T::totalBlocksNumber()));
    if constexpr (IsAesi<T>::value) { o.add(x.isPositive()); o.add(x.isNegative()); }
}
template <typename T> constexpr void access(T& x, const T& cx, const Cmd& c, Out& o) {
    switch(c.op) {
        case Op::setbit: x.setBit(c.n, c.v != 0); break;
        case Op::setbyte: x.setByte(c.n, static_cast<std::uint8_t>(c.v)); break;
        case Op::setblk: x.setBlock(c.n, static_cast<std::uint32_t>(c.v)); break;
        default: {
            const std::uint32_t g = c.op == Op::getbit ? cx.getBit(c.n) : c.op == Op::getbyte ? cx.getByte(c.n) : cx.getBlock(c.n);
            o.hasVal = true; o.val.s = g ? 1 : 0; o.val.len = g ? 1 : 0; o.val.b[0] = g;
        }
    }
}
template <typename I> constexpr void intResult(I v, Out& o) {
    o.hasVal = true;
    std::uint64_t m;
    if constexpr (std::is_signed_v<I>) {
        m = v < 0 ? std::uint64_t { 0 } - static_cast<std::uint64_t>(static_cast<std::int64_t>(v)) : static_cast<std::uint64_t>(v);
        o.val.s = v < 0 ? -1 : v > 0 ? 1 : 0;
    } else { m = static_cast<std::uint64_t>(v); o.val.s = v ? 1 : 0; }
    o.val.b[0] = static_cast<std::uint32_t>(m); o.val.b[1] = static_cast<std::uint32_t>(m >> 32);
    o.val.len = o.val.b[1] ? 2 : o.val.b[0] ? 1 : 0;
}
template <typename T> constexpr void integralCasts(const T& x, const Cmd& c, Out& o) {
    switch(c.t) {
        case Ty::u8: intResult(x.template integralCast<std::uint8_t>(), o); break;
        case Ty::u16: intResult(x.template integralCast<std::uint16_t>(), o); break;
        case Ty::u32: intResult(x.template integralCast<std::uint32_t>(), o); break;
        case Ty::u64: intResult(x.template integralCast<std::uint64_t>(), o); break;
        case Ty::ull: intResult(x.template integralCast<unsigned long long>(), o); break;
        case Ty::i8: intResult(x.template integralCast<std::int8_t>(), o); break;
        case Ty::i16: intResult(x.template integralCast<std::int16_t>(), o); break;
        case Ty::i32: intResult(x.template integralCast<std::int32_t>(), o); break;
        case Ty::i64: intResult(x.template integralCast<std::int64_t>(), o); break;
        case Ty::ll: intResult(x.template integralCast<long long>(), o); break;
        default: break;
    }
}
template <typename T> constexpr void copyInto(T& dst, const T& src, Form f, Out& o) {
    if(f == Form::asg) denoted<T>(dst = src, dst, o, false);
    else if(f == Form::member) denoted<T>(dst.operator=(src), dst, o, false);
    else if(f == Form::move) { T t(src); T u(std::move(t)); denoted<T>(dst = std::move(u), dst, o, false); }
    else { T t(src); dst = t; }
}
template <typename T> constexpr void exchange(T& x, T& y, Form f) {
    if(f == Form::move) { using std::swap; swap(x, y); }
    else x.swap(y);
}

// ---------------------------------------------------------------- one call
// Returns false if the operation is not compiled into this binary.
constexpr bool step(Regs& r, const Cmd& c, Out& o, bool raw) {
    switch(c.op) {
#if defined F_UADD || defined F_SADD
        case Op::add:
#ifdef F_UADD
            if(!isS(c.d)) { binU<AddOp>(r, c, o); return true; }
#endif
#ifdef F_SADD
            if(isS(c.d)) { binS<AddOp>(r, c, o, raw); return true; }
#endif
            return false;
        case Op::sub:
#ifdef F_UADD
            if(!isS(c.d)) { binU<SubOp>(r, c, o); return true; }
#endif
#ifdef F_SADD
            if(isS(c.d)) { binS<SubOp>(r, c, o, raw); return true; }
#endif
            return false;
        case Op::neg: if(isS(c.d)) S(r, c.d) = -cS(r, c.a); else U(r, c.d) = -cU(r, c.a); return true;
        case Op::pos: if(isS(c.d)) S(r, c.d) = +cS(r, c.a); else U(r, c.d) = +cU(r, c.a); return true;
        case Op::inv: S(r, c.d).inverse(); return true;
        case Op::inc:
            o.hasVal = true;
            if(isS(c.d)) o.val = c.f == Form::post ? observe(S(r, c.d)++, raw) : denoted<Aesi<N>>(++S(r, c.d), S(r, c.d), o, raw);
            else o.val = c.f == Form::post ? observe(U(r, c.d)++, raw) : denoted<Aeu<N>>(++U(r, c.d), U(r, c.d), o, raw);
            return true;
        case Op::dec:
            o.hasVal = true;
            if(isS(c.d)) o.val = c.f == Form::post ? observe(S(r, c.d)--, raw) : denoted<Aesi<N>>(--S(r, c.d), S(r, c.d), o, raw);
            else o.val = c.f == Form::post ? observe(U(r, c.d)--, raw) : denoted<Aeu<N>>(--U(r, c.d), U(r, c.d), o, raw);
            return true;
#endif
#if defined F_UMUL || defined F_SMUL
        case Op::mul:
#ifdef F_UMUL
            if(!isS(c.d)) { binU<MulOp>(r, c, o); return true; }
#endif
#ifdef F_SMUL
            if(isS(c.d)) { binS<MulOp>(r, c, o, raw); return true; }
#endif
            return false;
#endif
#if defined F_UDIV || defined F_SDIV
        case Op::div:
#ifdef F_UDIV
            if(!isS(c.d)) { binU<DivOp>(r, c, o); return true; }
#endif
#ifdef F_SDIV
            if(isS(c.d)) { binS<DivOp>(r, c, o, raw); return true; }
#endif
            return false;
        case Op::mod:
#ifdef F_UDIV
            if(!isS(c.d)) { binU<ModOp>(r, c, o); return true; }
#endif
#ifdef F_SDIV
            if(isS(c.d)) { binS<ModOp>(r, c, o, raw); return true; }
#endif
            return false;
        case Op::dm:
            if(isS(c.d)) {
                // (Aesi has no two-argument divide)
                Aesi<N>::divide(cS(r, c.a), cS(r, c.b), S(r, c.d), S(r, c.d2));
            } else if(c.f == Form::pair) {
                const auto res = Aeu<N>::divide(cU(r, c.a), cU(r, c.b));
                U(r, c.d) = res.first; U(r, c.d2) = res.second;
            } else Aeu<N>::divide(cU(r, c.a), cU(r, c.b), U(r, c.d), U(r, c.d2));
            return true;
#endif
#ifdef F_UBIT
        case Op::band: binU<AndOp>(r, c, o); return true;
        case Op::bor: binU<OrOp>(r, c, o); return true;
        case Op::bxor: binU<XorOp>(r, c, o); return true;
        case Op::bnot: U(r, c.d) = ~cU(r, c.a); return true;
#endif
#ifdef F_USHIFT
        case Op::shl: {
            Cmd q = c; q.k = c.n; o.hasVal = true;
            withUnsigned(q, [&](auto k) {
                if(c.f == Form::asg_r) o.val = denoted<Aeu<N>>(U(r, c.d) <<= k, U(r, c.d), o, false);
                else { const Aeu<N> v = cU(r, c.a) << k; o.val = observe(v, false); U(r, c.d) = v; }
            });
            return true;
        }
        case Op::shr: {
            Cmd q = c; q.k = c.n; o.hasVal = true;
            withUnsigned(q, [&](auto k) {
                if(c.f == Form::asg_r) o.val = denoted<Aeu<N>>(U(r, c.d) >>= k, U(r, c.d), o, false);
                else { const Aeu<N> v = cU(r, c.a) >> k; o.val = observe(v, false); U(r, c.d) = v; }
            });
            return true;
        }
#endif
#if defined F_UCMP || defined F_SCMP
        case Op::cmp:
#ifdef F_UCMP
            if(!isS(c.a)) {
                if(c.f == Form::ri) withUnsigned(c, [&](auto k) { compareAll(cU(r, c.a), k, o); });
                else if(c.f == Form::ir) withUnsigned(c, [&](auto k) { relations(k, cU(r, c.a), o); });
                else if(isM(c.a) && isM(c.b)) compareAll(cUM(r, c.a), cUM(r, c.b), o);
                else if(isM(c.a)) compareAll(cUM(r, c.a), cU(r, c.b), o);
                else if(isM(c.b)) compareAll(cU(r, c.a), cUM(r, c.b), o);
                else compareAll(cU(r, c.a), cU(r, c.b), o);
                return true;
            }
#endif
#ifdef F_SCMP
            if(isS(c.a)) {
                if(c.f == Form::ri) withIntegral(c, [&](auto k) { compareAll(cS(r, c.a), k, o); });
                else if(c.f == Form::ir) withIntegral(c, [&](auto k) { relations(k, cS(r, c.a), o); });
                else if(isM(c.a) && isM(c.b)) compareAll(cSM(r, c.a), cSM(r, c.b), o);
                else if(isM(c.a)) compareAll(cSM(r, c.a), cS(r, c.b), o);
                else if(isM(c.b)) compareAll(cS(r, c.a), cSM(r, c.b), o);
                else compareAll(cS(r, c.a), cS(r, c.b), o);
                return true;
            }
#endif
            return false;
#endif
#ifdef F_GCD
        case Op::gcd: U(r, c.d) = Aeu<N>::gcd(cU(r, c.a), cU(r, c.b)); return true;
        case Op::lcm: U(r, c.d) = Aeu<N>::lcm(cU(r, c.a), cU(r, c.b)); return true;
        case Op::xgcd: {
            const Aeu<N> g = Aeu<N>::gcd(cU(r, c.a), cU(r, c.b), U(r, c.d2), U(r, c.d3));
            U(r, c.d) = g; return true;
        }
#endif
#ifdef F_POWM
        case Op::powm:
            if(c.f == Form::x) U(r, c.d) = Aeu<N>::powm(cU(r, c.a), cUM(r, c.p), cU(r, c.mm));
            else if(c.f == Form::t) U(r, c.d) = Aeu<N>::template powm<N>(cU(r, c.a), cU(r, c.p), cU(r, c.mm));
            else U(r, c.d) = Aeu<N>::powm(cU(r, c.a), cU(r, c.p), cU(r, c.mm));
            return true;
#endif
#ifdef F_ROOT
        case Op::sqrt: if(isS(c.d)) S(r, c.d) = cS(r, c.a).squareRoot(); else U(r, c.d) = cU(r, c.a).squareRoot(); return true;
        case Op::pow2: if(isS(c.d)) S(r, c.d) = Aesi<N>::power2(c.n); else U(r, c.d) = Aeu<N>::power2(c.n); return true;
#endif
#ifdef F_ACCESS
        case Op::setbit: case Op::setbyte: case Op::setblk:
            if(isS(c.d)) access(S(r, c.d), S(r, c.d), c, o); else access(U(r, c.d), U(r, c.d), c, o);
            return true;
        case Op::getbit: case Op::getbyte: case Op::getblk:
            if(isS(c.a)) access(S(r, c.a), cS(r, c.a), c, o); else access(U(r, c.a), cU(r, c.a), c, o);
            return true;
#endif
#ifdef F_QUERY
        case Op::qry: if(isS(c.a)) queries(cS(r, c.a), o); else queries(cU(r, c.a), o); return true;
#endif
#ifdef F_INTS
        case Op::cons:
            switch(c.t) {
                case Ty::bl: if(isS(c.d)) S(r, c.d) = Aesi<N>(lit<bool>(c)); else U(r, c.d) = Aeu<N>(lit<bool>(c)); break;
                case Ty::c16: if(isS(c.d)) S(r, c.d) = Aesi<N>(lit<char16_t>(c)); else U(r, c.d) = Aeu<N>(lit<char16_t>(c)); break;
                case Ty::c32: if(isS(c.d)) S(r, c.d) = Aesi<N>(lit<char32_t>(c)); else U(r, c.d) = Aeu<N>(lit<char32_t>(c)); break;
                case Ty::c8: if(isS(c.d)) S(r, c.d) = Aesi<N>(lit<char>(c)); break;
                case Ty::wc: if(isS(c.d)) S(r, c.d) = Aesi<N>(lit<wchar_t>(c)); break;
                default:
                    if(isS(c.d)) withIntegral(c, [&](auto k) { if(c.f == Form::asg) denoted<Aesi<N>>(S(r, c.d) = k, S(r, c.d), o, false); else { Aesi<N> t(k); S(r, c.d) = t; } });
                    else withUnsigned(c, [&](auto k) { if(c.f == Form::asg) denoted<Aeu<N>>(U(r, c.d) = k, U(r, c.d), o, false); else { Aeu<N> t(k); U(r, c.d) = t; } });
            }
            return true;
        case Op::icast: if(isS(c.a)) integralCasts(cS(r, c.a), c, o); else integralCasts(cU(r, c.a), c, o); return true;
#endif
#ifdef F_CASTS
        case Op::pcast:
            if constexpr (N != M) {
                if(isM(c.d)) {
                    if(isS(c.d)) SM(r, c.d) = cS(r, c.a).template precisionCast<M>(); else UM(r, c.d) = cU(r, c.a).template precisionCast<M>();
                } else {
                    if(isS(c.d)) S(r, c.d) = cSM(r, c.a).template precisionCast<N>(); else U(r, c.d) = cUM(r, c.a).template precisionCast<N>();
                }
            }
            return true;
        case Op::ucast: U(r, c.d) = cS(r, c.a).unsignedCast(); return true;
        case Op::fromu: S(r, c.d) = Aesi<N>(cU(r, c.a)); return true;
        case Op::copy: if(isS(c.d)) copyInto(S(r, c.d), cS(r, c.a), c.f, o); else copyInto(U(r, c.d), cU(r, c.a), c.f, o); return true;
        case Op::swap: if(isS(c.a)) exchange(S(r, c.a), S(r, c.b), c.f); else exchange(U(r, c.a), U(r, c.b), c.f); return true;
#endif
        default: return false;
    }
}
