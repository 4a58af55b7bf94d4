// Text, stream and GMP operations of the machine (run time only).
#pragma once
#include "machine.h"
#include <iomanip>
#include <cstring>
#include <functional>
#include <ios>
#include <sstream>
#include <vector>

struct IoCmd {
    int base = 10; bool up = false, sb = false, wide = false, big = true, bk = false;
    bool dsb = true, dbig = true;  // the argument is left out of the call
    std::uint64_t cap = 0;
    std::vector<int> x;            // character codes / bytes
    std::vector<int> as;           // registers to insert
    std::string form;              // parse: lit ptr str strm sv svm
    std::string hex;               // GMP literal
    int adj = 0, fill = ' ', prec = 6, extra = 0;
};
struct IoOut { std::string json; };   // the value of "r"

inline std::string jarr(const std::vector<long long>& v) {
    std::string s = "[";
    for(std::size_t i = 0; i < v.size(); ++i) { if(i) s += ','; s += std::to_string(v[i]); }
    return s + "]";
}
template <typename Str> std::vector<long long> codes(const Str& s) {
    std::vector<long long> r; for(auto ch: s) r.push_back(static_cast<long long>(static_cast<std::conditional_t<sizeof(ch) == 1, unsigned char, unsigned>>(ch)));
    return r;
}

#ifdef F_PARSE
template <typename T, typename Char, std::size_t L> T fromArray(const std::basic_string<Char>& s) {
    Char a[L]; for(std::size_t i = 0; i + 1 < L; ++i) a[i] = s[i];
    a[L - 1] = Char {};
    const Char (&ref)[L] = a;
    return T(ref);
}
template <typename T, typename Char> T parseAs(const IoCmd& c) {
    std::basic_string<Char> s; for(int ch: c.x) s.push_back(static_cast<Char>(ch));
    if(c.form == "lit") {
        switch(s.size() + 1) {
            case 2: return fromArray<T, Char, 2>(s);
            case 3: return fromArray<T, Char, 3>(s);
            case 4: return fromArray<T, Char, 4>(s);
            case 7: return fromArray<T, Char, 7>(s);
            case 12: return fromArray<T, Char, 12>(s);
            case 23: return fromArray<T, Char, 23>(s);
            case 36: return fromArray<T, Char, 36>(s);
            case 70: return fromArray<T, Char, 70>(s);
            default: return fromArray<T, Char, 2>(s);   // not generated
        }
    }
    // What lies around the characters must not matter: other digits, or (under the address
    // sanitizer) memory that must not be read.
    std::vector<Char> mem;
#ifndef SANITIZED
    const std::size_t lead = 4;
    for(const char ch: { '7', '-', '0', 'x' }) mem.push_back(static_cast<Char>(ch));
    mem.insert(mem.end(), s.begin(), s.end());
    if(s.size() % 2) mem.push_back(static_cast<Char>('7'));
    for(const char ch: { 'x', '5', '3', '1', '0', '6', 'b', '1' }) mem.push_back(static_cast<Char>(ch));
#else
    const std::size_t lead = 0;
    mem.assign(s.begin(), s.end());
#endif
    if(c.form == "ptr") return T(static_cast<const Char*>(mem.data() + lead), s.size());
    if(c.form == "str") { const std::basic_string<Char> cs = s; return T(cs); }
    if(c.form == "strm") return T(std::move(s));
    const std::basic_string_view<Char> sv(mem.data() + lead, s.size());
    if(c.form == "sv") return T(sv);
    return T(std::basic_string_view<Char>(mem.data() + lead, s.size()));
}
#endif

// A destination that takes `room' characters and then fails, as a full disk does.
template <typename Char> struct Full : std::basic_streambuf<Char> {
    using Tr = std::char_traits<Char>;
    std::basic_string<Char> data; std::size_t room;
    explicit Full(std::size_t n): room(n) {}
    typename Tr::int_type overflow(typename Tr::int_type c) override {
        if(Tr::eq_int_type(c, Tr::eof())) return Tr::not_eof(c);
        if(data.size() >= room) return Tr::eof();
        data.push_back(Tr::to_char_type(c)); return c;
    }
    std::streamsize xsputn(const Char* s, std::streamsize n) override {
        const std::size_t k = std::min(static_cast<std::size_t>(n), room - data.size());
        data.append(s, k); return static_cast<std::streamsize>(k);
    }
};
template <typename Str> std::string outcome(std::vector<long long> head, const Str& s) {
    for(auto ch: codes(s)) head.push_back(ch);
    return jarr(head);
}

#if defined F_STREAM || defined F_FMT
template <typename Char> void setup(std::basic_ostream<Char>& os, const IoCmd& c) {
    os << (c.base == 16 ? std::hex : c.base == 8 ? std::oct : std::dec);
    if(c.up) os << std::uppercase;
    if(c.sb) os << std::showbase;
    if(c.adj == 1) os << std::left; else if(c.adj == 2) os << std::right; else if(c.adj == 3) os << std::internal;
    os.fill(static_cast<Char>(c.fill)); os.precision(c.prec);
    if(c.extra & 1) os << std::boolalpha;
    if(c.extra & 2) os << std::showpos;
    if(c.extra & 4) os << std::scientific;
    if(c.extra & 8) os << std::showpoint;
    if(c.extra & 16) os << std::unitbuf;
    if(c.extra & 32) os.unsetf(std::ios::skipws);
}
// Insertion into a destination that may fail: whether the stream is still good, whether its formatting is what it
// was, and the characters that arrived
template <typename Char, typename T> std::string insertFull(const T& x, const IoCmd& c) {
    Full<Char> sink(static_cast<std::size_t>(c.cap)); std::basic_ostream<Char> os(&sink); setup(os, c);
    const auto flags = os.flags(); const auto fill = os.fill(); const auto prec = os.precision();
    os << x;
    return outcome({os.good() ? 1 : 0, os.flags() == flags && os.fill() == fill && os.precision() == prec ? 1 : 0}, sink.data);
}
#endif
#ifdef F_STREAM
template <typename Char, typename T> std::basic_string<Char> insertOne(const T& x, const IoCmd& c) {
    std::basic_ostringstream<Char> os; setup(os, c); os << x; return os.str();
}
template <typename T> std::string outAs(const T& x, T* back, const IoCmd& c) {
    if(c.wide) {
        const auto s = insertOne<wchar_t>(x, c);
        if(back) *back = T(s);
        return jarr(codes(s));
    }
    const auto s = insertOne<char>(x, c);
    if(back) *back = T(s);
    return jarr(codes(s));
}
#endif
#ifdef F_FMT
template <typename Char> std::string insertSeq(const Regs& r, const IoCmd& c) {
    const auto prepare = [&](std::basic_ostream<Char>& os) { setup(os, c); };
    const auto put = [&](std::basic_ostream<Char>& os, int id) {
        if(isM(id)) { if(isS(id)) os << cSM(r, id); else os << cUM(r, id); }
        else { if(isS(id)) os << cS(r, id); else os << cU(r, id); }
    };
    const auto state = [](std::basic_ostream<Char>& os) {
        return "[" + std::to_string(static_cast<long long>(os.flags())) + "," + std::to_string(static_cast<long long>(os.fill()))
            + "," + std::to_string(static_cast<long long>(os.precision())) + "]";
    };
    std::basic_ostringstream<Char> os; prepare(os);
    std::string sts = "[" + state(os), alone = "[";
    for(std::size_t i = 0; i < c.as.size(); ++i) {
        put(os, c.as[i]); sts += "," + state(os); os << static_cast<Char>(';');
        std::basic_ostringstream<Char> one; prepare(one); put(one, c.as[i]);
        alone += (i ? "," : "") + jarr(codes(one.str()));
    }
    return "{\"x\":" + jarr(codes(os.str())) + ",\"alone\":" + alone + "],\"st\":" + sts + "]}";
}
#endif

#ifdef F_GSTR
template <typename Char, typename T> std::string getStringAs(const T& x, const IoCmd& c) {
    constexpr std::size_t G = 64;
    const Char pat = static_cast<Char>(sizeof(Char) == 1 ? 0x7e : 0x2a5a5a5);
    std::vector<Char> mem(static_cast<std::size_t>(c.cap) + 2 * G, pat);
    Char* const buf = mem.data() + G; const std::size_t cap = static_cast<std::size_t>(c.cap);
    std::size_t n = 0;
    if(c.dsb) switch(c.base) {
        case 2: n = c.up ? x.template getString<2, true>(buf, cap) : x.template getString<2>(buf, cap); break;
        case 8: n = c.up ? x.template getString<8, true>(buf, cap) : x.template getString<8>(buf, cap); break;
        case 10: n = c.up ? x.template getString<10, true>(buf, cap) : x.template getString<10>(buf, cap); break;
        default: n = c.up ? x.template getString<16, true>(buf, cap) : x.template getString<16>(buf, cap); break;
    }
    else switch(c.base) {
        case 2: n = c.up ? x.template getString<2, true>(buf, cap, c.sb) : x.template getString<2>(buf, cap, c.sb); break;
        case 8: n = c.up ? x.template getString<8, true>(buf, cap, c.sb) : x.template getString<8>(buf, cap, c.sb); break;
        case 10: n = c.up ? x.template getString<10, true>(buf, cap, c.sb) : x.template getString<10>(buf, cap, c.sb); break;
        default: n = c.up ? x.template getString<16, true>(buf, cap, c.sb) : x.template getString<16>(buf, cap, c.sb); break;
    }
    bool outside = false;
    for(std::size_t i = 0; i < G; ++i) outside |= mem[i] != pat || mem[G + cap + i] != pat;
    std::vector<long long> w;
    for(std::size_t i = 0; i < n && i < cap; ++i) w.push_back(static_cast<long long>(static_cast<std::conditional_t<sizeof(Char) == 1, unsigned char, unsigned>>(buf[i])));
    const long long shown = n > 1000000000 ? 1000000000 : static_cast<long long>(n);
    return "{\"n\":" + std::to_string(shown) + ",\"out\":" + (outside ? "true" : "false") + ",\"x\":" + jarr(w) + "}";
}
#endif

#ifdef F_BIN
// A stream buffer that hands over `step' characters at a time, as a socket or an unbuffered file does.
struct Slow : std::streambuf {
    std::string data; std::size_t at = 0, step; char got[8];
    explicit Slow(std::string d, std::size_t s): data(std::move(d)), step(s) {}
    int_type underflow() override {
        if(at >= data.size()) return traits_type::eof();
        const std::size_t n = std::min(step, data.size() - at);
        std::memcpy(got, data.data() + at, n); at += n;
        setg(got, got, got + n);
        return traits_type::to_int_type(got[0]);
    }
    int_type overflow(int_type c) override { if(c != traits_type::eof()) data.push_back(static_cast<char>(c)); return 0; }
    std::size_t taken() const { return at - static_cast<std::size_t>(egptr() - gptr()); }
};
template <typename T> std::string writeBin(const T& x, const IoCmd& c) {
    const auto put = [&](std::ostream& to) { if(c.dbig) x.writeBinary(to); else x.writeBinary(to, c.big); };
    std::ostringstream os; put(os);
    Slow slow("", 1); std::ostream so(&slow); put(so);
    if(slow.data != os.str()) return "[-1]";     // must not depend on the kind of stream
    return jarr(codes(os.str()));
}
template <typename T> std::string writeFull(const T& x, const IoCmd& c) {
    Full<char> sink(static_cast<std::size_t>(c.cap)); std::ostream os(&sink); if(c.dbig) x.writeBinary(os); else x.writeBinary(os, c.big);
    return outcome({os.good() ? 1 : 0}, sink.data);
}
// Bytes taken, whether the stream is good afterwards, and the bytes of a number read next from the same stream
template <typename T> std::string readFrom(T& x, T next, std::istream& is, const IoCmd& c, const std::function<long long()>& taken) {
    if(c.dbig) x.readBinary(is); else x.readBinary(is, c.big);
    const bool good = is.good();
    const auto used = taken();
    if(c.dbig) next.readBinary(is); else next.readBinary(is, c.big);
    std::ostringstream os; next.writeBinary(os, c.big);
    std::vector<long long> res {used, good ? 1 : 0};
    for(int ch: codes(os.str())) res.push_back(ch);
    std::string out = "[";
    for(std::size_t i = 0; i < res.size(); ++i) out += (i ? "," : "") + std::to_string(res[i]);
    return out + "]";
}
template <typename T> std::string readBin(T& x, const IoCmd& c) {
    std::string s; for(int ch: c.x) s.push_back(static_cast<char>(ch));
    T y = x, other = x;
    std::istringstream is(s);
    const auto r1 = readFrom(x, other, is, c, [&] { const auto left = is.rdbuf()->in_avail(); return static_cast<long long>(s.size()) - (left > 0 ? static_cast<long long>(left) : 0); });
    Slow slow(s, 1 + s.size() % 7); std::istream si(&slow);
    const auto r2 = readFrom(y, other, si, c, [&] { return static_cast<long long>(slow.taken()); });
    if(r1 != r2) return "[-1]";     // must not depend on the kind of stream
    for(std::size_t i = 0; i < x.totalBlocksNumber(); ++i) if(x.getBlock(i) != y.getBlock(i)) return "[-1]";
    return r1;
}
#endif

// Returns false if the operation is not compiled in; `has' tells whether there is a result.
inline bool ioStep(Regs& r, const Cmd& c, const IoCmd& io, IoOut& o) {
    (void) r; (void) io; (void) o;
    switch(c.op) {
#ifdef F_PARSE
        case Op::parse:
            if(isS(c.d)) S(r, c.d) = io.wide ? parseAs<Aesi<N>, wchar_t>(io) : parseAs<Aesi<N>, char>(io);
            else U(r, c.d) = io.wide ? parseAs<Aeu<N>, wchar_t>(io) : parseAs<Aeu<N>, char>(io);
            return true;
#endif
#ifdef F_STREAM
        case Op::out:
            if(isS(c.a)) o.json = outAs(cS(r, c.a), io.bk ? &S(r, c.d) : nullptr, io);
            else o.json = outAs(cU(r, c.a), io.bk ? &U(r, c.d) : nullptr, io);
            return true;
#endif
#ifdef F_FMT
        case Op::insq: o.json = io.wide ? insertSeq<wchar_t>(r, io) : insertSeq<char>(r, io); return true;
#endif
#if defined F_STREAM || defined F_FMT
        case Op::outf:
            if(isS(c.a)) o.json = io.wide ? insertFull<wchar_t>(cS(r, c.a), io) : insertFull<char>(cS(r, c.a), io);
            else o.json = io.wide ? insertFull<wchar_t>(cU(r, c.a), io) : insertFull<char>(cU(r, c.a), io);
            return true;
#endif
#ifdef F_GSTR
        case Op::gstr:
            if(isS(c.a)) o.json = io.wide ? getStringAs<wchar_t>(cS(r, c.a), io) : getStringAs<char>(cS(r, c.a), io);
            else o.json = io.wide ? getStringAs<wchar_t>(cU(r, c.a), io) : getStringAs<char>(cU(r, c.a), io);
            return true;
#endif
#ifdef F_BIN
        case Op::wbin: o.json = writeBin(cU(r, c.a), io); return true;
        case Op::wbinf: o.json = writeFull(cU(r, c.a), io); return true;
        case Op::rbin: o.json = readBin(U(r, c.d), io); return true;
#endif
#ifdef F_GMP
        case Op::mpz: {
            const mpz_class z(io.hex, 16);
            if(isS(c.d)) S(r, c.d) = Aesi<N>(z); else U(r, c.d) = Aeu<N>(z);
            return true;
        }
        case Op::mpzeq: {
            const mpz_class z(io.hex, 16), zero(0);
            // against a plain value and against an expression template
            const bool e1 = isS(c.a) ? cS(r, c.a) == z : cU(r, c.a) == z;
            const bool e2 = isS(c.a) ? cS(r, c.a) == (z + zero) : cU(r, c.a) == (z + zero);
            o.json = "[" + std::to_string(e1) + "," + std::to_string(e2) + "]";
            return true;
        }
#endif
        default: return false;
    }
}
