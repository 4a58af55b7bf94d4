// The same calls evaluated by the compiler and at run time, as one log.
//   cexpr LOG
// CASES names a generated header:  BLOCK(k, commands..., loads..., texts...) per block.
#define CEXPR
#include "machine.h"
#include "script.h"

template <std::size_t K> struct Trace {
    std::array<Out, K> out {};
    std::array<std::array<Val, 12>, K> after {};
    std::array<bool, K> known {};
    bool guards = true;
};
template <std::size_t K> constexpr Trace<K> evaluate(const std::array<Cmd, K>& cmds, const std::array<Val, K>& loads) {
    Trace<K> t; Regs r {};
    for(int id = 0; id < 12; ++id) { Val z; loadReg(r, id, z); }
    for(std::size_t i = 0; i < K; ++i) {
        if(cmds[i].op == Op::load) { loadReg(r, cmds[i].d, loads[i]); t.known[i] = true; }
        else t.known[i] = step(r, cmds[i], t.out[i], false);
        for(int id = 0; id < 12; ++id) t.after[i][static_cast<std::size_t>(id)] = observeReg(r, id, false);
    }
    t.guards = r.guards();
    return t;
}
#ifdef RUNTIME
#define CONSTANT const
#else
#define CONSTANT constexpr
#endif
#include CASES

template <std::size_t K> int report(Machine& m, const Trace<K>& t, const std::array<const char*, K>& texts) {
    m.start(false);
    buffered += header(m, "");
    for(std::size_t i = 0; i < K; ++i) {
        if(!t.known[i]) { std::fprintf(stderr, "'%s' is not compiled in\n", texts[i]); return 2; }
        m.emit(parseLine(texts[i], i), t.out[i], "", &t.after[i], t.guards);
    }
    buffered += "{\"o\":\"reset\",\"w\":[]}\n";
    m.start(false);
    alarm(20);
    for(std::size_t i = 0; i < K; ++i) if(!m.exec(parseLine(texts[i], i))) return 2;
    alarm(0);
    flushLog();
    return 0;
}
int main(int argc, char** argv) {
    if(argc < 2) return 2;
    logFd = open(argv[1], O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if(logFd < 0) return 2;
    for(int s: { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM, SIGTRAP }) signal(s, onCrash);
    Machine m; m.log = &buffered; m.r->sh = nullptr;
#define CALL(k) if(const int e = report(m, TRACE_##k, TEXTS_##k)) return e;
    ALL_BLOCKS
    return 0;
}
