// Executes a script of calls on the register machine and logs one event per call.
//   driver SCRIPT LOG
// Script lines: "init [raw]" starts a chunk, "shared U S" (before it) sets the read-only objects,
// "reset" sets every register to zero, "threads T R ... next ... end" runs T scripts at the same
// time, everything else is a call:  op key=value ...
#include "script.h"
#include <atomic>
#include <set>
#include <sys/resource.h>
#include <sys/time.h>
#include <thread>


// processor time a call may take, in seconds
#ifndef CALL_LIMIT
#define CALL_LIMIT 20
#endif
static void limit(int seconds) { itimerval t {}; t.it_value.tv_sec = seconds; setitimer(ITIMER_PROF, &t, nullptr); }

int main(int argc, char** argv) {
    if(argc < 3) return 2;
    std::ifstream in(argv[1]);
    logFd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if(!in || logFd < 0) return 2;
    // the stack may be what overflows
    static char alt[65536]; stack_t st {}; st.ss_sp = alt; st.ss_size = sizeof alt; sigaltstack(&st, nullptr);
    struct sigaction sa {}; sa.sa_handler = onCrash; sa.sa_flags = SA_ONSTACK;
    for(int s: { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM, SIGPROF, SIGTRAP }) sigaction(s, &sa, nullptr);

#ifndef SANITIZED
    const rlimit mem { 4ull << 30, 4ull << 30 }; setrlimit(RLIMIT_AS, &mem);   // a call that never stops allocating
#endif

    static Shared shared;
    Machine m; m.log = &buffered; m.r->sh = nullptr;
    std::string text; std::size_t no = 0;
    while(std::getline(in, text)) {
        ++no;
        if(text.empty() || text[0] == '#') continue;
        if(text.rfind("init", 0) == 0) {
            flushLog();
            m.start(text.find("raw") != std::string::npos);
            buffered += header(m, "");
            continue;
        }
        if(text.rfind("shared", 0) == 0) {   // "shared U S": values of registers 12 and 13, to be given before init
            std::stringstream ss(text); std::string w, u, s; ss >> w >> u >> s;
            load(shared.u, parseVal(u)); load(shared.s, parseVal(s)); m.r->sh = &shared;
            continue;
        }
        if(text.rfind("threads", 0) == 0) {
            // T scripts (separated by "next", up to "end") run at the same time, each R times.  A round
            // whose events are exactly those of an earlier round of the same thread is not logged again.
            std::stringstream ss(text); std::string w; int T = 0, R = 0; ss >> w >> T >> R;
            std::vector<std::vector<Line>> parts(static_cast<std::size_t>(T));
            std::size_t part = 0;
            while(std::getline(in, text) && text != "end") {
                ++no;
                if(text == "next") { ++part; continue; }
                parts[part].push_back(parseLine(text, no));
            }
            ++no;
            std::vector<std::string> logs(static_cast<std::size_t>(T));
            std::atomic<int> ready { 0 }; std::atomic<bool> bad { false };
            std::vector<std::thread> ts;
            limit(200);
            for(int t = 0; t < T; ++t) ts.emplace_back([&, t] {
                threadNo = t + 1;
                Machine mm; mm.r->sh = m.r->sh;
                std::set<std::string> seen; std::string round; mm.log = &round;
                ++ready; while(ready < T) ;
                for(int k = 0; k < R && !bad; ++k) {
                    mm.start(m.raw);
                    round = "{\"o\":\"reset\",\"w\":[]}\n";
                    for(const auto& l: parts[static_cast<std::size_t>(t)]) if(!mm.exec(l)) bad = true;
                    if(seen.size() < 20 && seen.insert(round).second) logs[static_cast<std::size_t>(t)] += round;
                }
            });
            for(auto& t: ts) t.join();
            limit(0);
            if(bad) return 2;
            for(const auto& l: logs) buffered += l;
            continue;
        }
        const Line l = parseLine(text, no);
        limit(CALL_LIMIT);
        if(!m.exec(l)) return 2;
        limit(0);
        if(buffered.size() > (1u << 20)) flushLog();
    }
    flushLog();
    close(logFd);
    return 0;
}
