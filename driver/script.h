// Scripts, their execution and the event log.
#pragma once
#include "io.h"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <unistd.h>


struct Line { Cmd c; IoCmd io; Val lv; std::string text; std::size_t no = 0; };

inline const std::map<std::string, Op> OPS {
    {"load", Op::load}, {"add", Op::add}, {"sub", Op::sub}, {"mul", Op::mul}, {"div", Op::div}, {"mod", Op::mod}, {"and", Op::band},
    {"or", Op::bor}, {"xor", Op::bxor}, {"not", Op::bnot}, {"neg", Op::neg}, {"pos", Op::pos}, {"inv", Op::inv}, {"inc", Op::inc},
    {"dec", Op::dec}, {"shl", Op::shl}, {"shr", Op::shr}, {"cmp", Op::cmp}, {"dm", Op::dm}, {"gcd", Op::gcd}, {"xgcd", Op::xgcd},
    {"lcm", Op::lcm}, {"powm", Op::powm}, {"sqrt", Op::sqrt}, {"pow2", Op::pow2}, {"setbit", Op::setbit}, {"setbyte", Op::setbyte},
    {"setblk", Op::setblk}, {"getbit", Op::getbit}, {"getbyte", Op::getbyte}, {"getblk", Op::getblk}, {"qry", Op::qry},
    {"cons", Op::cons}, {"icast", Op::icast}, {"pcast", Op::pcast}, {"ucast", Op::ucast}, {"fromu", Op::fromu}, {"copy", Op::copy},
    {"swap", Op::swap}, {"parse", Op::parse}, {"out", Op::out}, {"insq", Op::insq}, {"gstr", Op::gstr}, {"wbin", Op::wbin},
    {"rbin", Op::rbin}, {"outf", Op::outf}, {"wbinf", Op::wbinf}, {"mpz", Op::mpz}, {"mpzeq", Op::mpzeq}, {"reset", Op::reset} };
inline const std::map<std::string, Form> FORMS {
    {"rr", Form::rr}, {"ri", Form::ri}, {"rc", Form::rc}, {"ir", Form::ir}, {"=r", Form::asg_r}, {"=i", Form::asg_i}, {"pre", Form::pre},
    {"post", Form::post}, {"m", Form::m}, {"t", Form::t}, {"x", Form::x}, {"out", Form::out}, {"pair", Form::pair}, {"ctor", Form::ctor},
    {"asg", Form::asg}, {"mem", Form::member}, {"mv", Form::move} };
inline const std::map<std::string, Ty> TYPES {
    {"u8", Ty::u8}, {"u16", Ty::u16}, {"u32", Ty::u32}, {"u64", Ty::u64}, {"ull", Ty::ull}, {"i8", Ty::i8}, {"i16", Ty::i16}, {"i32", Ty::i32},
    {"i64", Ty::i64}, {"ll", Ty::ll}, {"bool", Ty::bl}, {"c8", Ty::c8}, {"c16", Ty::c16}, {"c32", Ty::c32}, {"wc", Ty::wc} };

inline Val parseVal(const std::string& s) {
    Val v; std::size_t from = 0; v.s = 1;
    if(!s.empty() && s[0] == '-') { v.s = -1; from = 1; }
    const std::string h = s.substr(from);
    std::size_t nb = 0;
    for(std::size_t end = h.size(); end > 0;) {
        const std::size_t begin = end > 8 ? end - 8 : 0;
        const auto blk = static_cast<std::uint32_t>(std::stoul(h.substr(begin, end - begin), nullptr, 16));
        if(nb < v.b.size()) v.b[nb++] = blk;
        end = begin;
    }
    v.len = nb; while(v.len > 0 && v.b[v.len - 1] == 0) --v.len;
    if(v.len == 0) v.s = 0;
    return v;
}
inline std::vector<int> intList(const std::string& s) {
    std::vector<int> r; std::stringstream ss(s); std::string t;
    while(std::getline(ss, t, ',')) if(!t.empty()) r.push_back(std::stoi(t));
    return r;
}
inline Line parseLine(const std::string& text, std::size_t no) {
    Line l; l.text = text; l.no = no;
    std::stringstream ss(text); std::string tok; ss >> tok;
    const auto it = OPS.find(tok);
    if(it == OPS.end()) { std::fprintf(stderr, "unknown op '%s' in line %zu\n", tok.c_str(), no); std::exit(2); }
    l.c.op = it->second;
    while(ss >> tok) {
        const auto eq = tok.find('=');
        const std::string k = tok.substr(0, eq), v = tok.substr(eq + 1);
        if(k == "f") { if(l.c.op == Op::parse) l.io.form = v; else if(l.c.op == Op::shl || l.c.op == Op::shr) l.c.f = v == "=" ? Form::asg_r : Form::rr; else l.c.f = FORMS.at(v); }
        else if(k == "t") l.c.t = TYPES.at(v);
        else if(k == "d") l.c.d = std::stoi(v);
        else if(k == "d2") l.c.d2 = std::stoi(v);
        else if(k == "d3") l.c.d3 = std::stoi(v);
        else if(k == "a") l.c.a = std::stoi(v);
        else if(k == "b") l.c.b = std::stoi(v);
        else if(k == "p") l.c.p = std::stoi(v);
        else if(k == "m") l.c.mm = std::stoi(v);
        else if(k == "k") {
            l.io.hex = v;
            if(l.c.op == Op::load) l.lv = parseVal(v);
            else if(l.c.op != Op::mpz && l.c.op != Op::mpzeq) {
                l.c.neg = v[0] == '-'; l.c.k = std::stoull(v.substr(l.c.neg ? 1 : 0), nullptr, 16);
            }
        }
        else if(k == "n") l.c.n = std::stoull(v, nullptr, 16);
        else if(k == "v") l.c.v = std::stoull(v, nullptr, 16);
        else if(k == "base") l.io.base = std::stoi(v);
        else if(k == "up") l.io.up = v == "1";
        else if(k == "sb") { l.io.sb = v == "1"; l.io.dsb = false; }
        else if(k == "wide") l.io.wide = v == "1";
        else if(k == "big") { l.io.big = v == "1"; l.io.dbig = false; }
        else if(k == "bk") l.io.bk = v == "1";
        else if(k == "cap") l.io.cap = std::stoull(v);
        else if(k == "x") l.io.x = intList(v);
        else if(k == "as") l.io.as = intList(v);
        else if(k == "adj") l.io.adj = std::stoi(v);
        else if(k == "fill") l.io.fill = std::stoi(v);
        else if(k == "prec") l.io.prec = std::stoi(v);
        else if(k == "extra") l.io.extra = std::stoi(v);
        else { std::fprintf(stderr, "unknown key '%s' in line %zu\n", k.c_str(), no); std::exit(2); }
    }
    return l;
}

inline std::string hexOf(const Val& v) {
    std::string s; char buf[16];
    for(std::size_t i = v.len; i-- > 0;) { std::snprintf(buf, sizeof buf, i + 1 == v.len ? "%x" : "%08x", v.b[i]); s += buf; }
    return s;
}
inline std::string jval(const Val& v) { return "[" + std::to_string(v.s) + ",\"" + hexOf(v) + "\"]"; }

// ---------------------------------------------------------------- log
inline int logFd = -1;
inline std::size_t currentLine[64];
inline thread_local int threadNo = 0;
inline std::string buffered;            // main thread's part of the log

inline void flushLog() {
    std::size_t done = 0;
    while(done < buffered.size()) {
        const auto n = write(logFd, buffered.data() + done, buffered.size() - done);
        if(n <= 0) _exit(2);
        done += static_cast<std::size_t>(n);
    }
    buffered.clear();
}
inline void onCrash(int sig) {
    // a call that crashes or does not return is an event no specification allows
    signal(SIGALRM, SIG_DFL);
    if(threadNo == 0) flushLog();
    char b[128];
    const int n = std::snprintf(b, sizeof b, "{\"o\":\"crash\",\"sig\":%d,\"line\":%zu,\"w\":[]}\n", sig, currentLine[threadNo]);
    if(write(logFd, b, static_cast<std::size_t>(n)) < 0) _exit(2);
    _exit(3);
}

struct Machine {
    std::unique_ptr<Regs> r { new Regs {} };
    std::array<Val, 14> seen {};
    bool raw = false;
    std::string* log = nullptr;

    void start(bool rawZero) {
        const Shared* sh = r->sh;
        *r = Regs {}; r->sh = sh; raw = rawZero;
        for(int id = 0; id < 14; ++id) {
            if(id < 12) { Val z; loadReg(*r, id, z); }
            seen[static_cast<std::size_t>(id)] = (id < 12 || sh) ? observeReg(*r, id, raw) : Val {};
        }
    }
    // registers that look different from the last time
    std::string delta(const std::array<Val, 12>* given = nullptr) {
        std::string s = "[";
        for(int id = 0; id < 14; ++id) {
            if(id >= 12 && (given || !r->sh)) continue;
            const Val v = given ? (*given)[static_cast<std::size_t>(id)] : observeReg(*r, id, raw);
            if(!same(v, seen[static_cast<std::size_t>(id)])) {
                if(s.size() > 1) s += ',';
                s += "[" + std::to_string(id) + "," + std::to_string(v.s) + ",\"" + hexOf(v) + "\"]";
                seen[static_cast<std::size_t>(id)] = v;
            }
        }
        return s + "]";
    }
    bool exec(const Line& l) {
        currentLine[threadNo] = l.no;
        Out o; IoOut io; bool known = true;
        if(l.c.op == Op::load) loadReg(*r, l.c.d, l.lv);
        else if(l.c.op == Op::reset) { const bool rw = raw; start(rw); *log += "{\"o\":\"reset\",\"w\":[]}\n"; return true; }
        else if(l.c.op >= Op::parse) known = ioStep(*r, l.c, l.io, io);
        else known = step(*r, l.c, o, raw);
        if(!known) { std::fprintf(stderr, "line %zu: '%s' is not compiled in\n", l.no, l.text.c_str()); return false; }
        emit(l, o, io.json, nullptr, r->guards());
        return true;
    }
    void emit(const Line& l, const Out& o, const std::string& text, const std::array<Val, 12>* given, bool guards) {
        *log += "{" + head(l);
        if(o.hasVal) *log += ",\"r\":" + jval(o.val);
        else if(o.nInts > 0) {
            std::vector<long long> v(o.ints.begin(), o.ints.begin() + o.nInts);
            *log += ",\"r\":" + jarr(v);
        } else if(!text.empty()) *log += ",\"r\":" + text;
        if(o.self) *log += o.self == 1 ? ",\"self\":true" : ",\"self\":false";
        *log += ",\"w\":" + delta(given);
        if(!guards) *log += ",\"oob\":true";
        *log += "}\n";
    }
    // the call as the specification sees it
    static std::string head(const Line& l) {
        std::stringstream ss(l.text); std::string tok; ss >> tok;
        std::string s = "\"o\":\"" + tok + "\"";
        while(ss >> tok) {
            const auto eq = tok.find('='); const std::string k = tok.substr(0, eq), v = tok.substr(eq + 1);
            if(k == "k") {
                const bool neg = v[0] == '-'; std::string h = v.substr(neg ? 1 : 0);
                const auto nz = h.find_first_not_of('0'); h = nz == std::string::npos ? "" : h.substr(nz);
                s += ",\"k\":[" + std::string(h.empty() ? "0" : neg ? "-1" : "1") + ",\"" + h + "\"]";
            }
            else if(k == "f" || k == "t" || k == "n" || k == "v") {
                std::string w = v;
                if(k == "f" && v == "rc") w = "ri";
                if(k == "f" && l.c.op == Op::shl) w = v; 
                s += ",\"" + k + "\":\"" + w + "\"";
            }
            else if(k == "up" || k == "sb" || k == "wide" || k == "big" || k == "bk") s += ",\"" + k + "\":" + (v == "1" ? "true" : "false");
            else if(k == "x" || k == "as") s += ",\"" + k + "\":[" + v + "]";
            else s += ",\"" + k + "\":" + v;
        }
        return s;
    }
};

inline std::string header(const Machine& m, const std::string& extra) {
    std::string s = "{\"o\":\"init\",\"N\":" + std::to_string(N) + ",\"M\":" + std::to_string(M) + extra + ",\"w\":[";
    bool first = true;
    for(int id = 12; id < 14 && m.r->sh; ++id) {
        const Val& v = m.seen[static_cast<std::size_t>(id)];
        if(v.s == 0) continue;
        s += std::string(first ? "" : ",") + "[" + std::to_string(id) + "," + std::to_string(v.s) + ",\"" + hexOf(v) + "\"]"; first = false;
    }
    return s + "]}\n";
}
