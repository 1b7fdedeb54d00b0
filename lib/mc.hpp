// Bounded exhaustive (stateless) explorer that drives the real code.
//
// A harness body is a function of a Ctx; every source of nondeterminism of the case (input value,
// operation, environment answer, schedule) is a Ctx::choose(n).  The explorer enumerates the whole tree
// of choice sequences depth first, in parallel shards (forked workers).  A violation is a choice
// sequence; it is replayed twice in fresh processes before it is reported and stored as a replay file.
#pragma once
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csetjmp>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mc {

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
    return h;
}
inline uint64_t hashDouble(double d) {
    if (d == 0) d = 0; // -0 == 0
    uint64_t u;
    std::memcpy(&u, &d, 8);
    return u;
}
inline uint64_t hashString(const std::string& s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return mix(h, s.size());
}

struct Skip {};
struct Violation { std::string msg; };

constexpr int MAXC = 400;
struct Slot { // shared memory, one per worker
    std::atomic<uint64_t> beat{0};
    std::atomic<uint64_t> execs{0}, nontrivial{0}, pruned{0}, transitions{0}, known{0}, inconclusive{0};
    int len = 0;
    int c[MAXC], n[MAXC];
    std::atomic<int> violated{0};
    char msg[4000];
    std::atomic<int> done{0};
    int nsamples = 0, slen[4];
    int sc[4][MAXC];
};
struct Shared {
    Slot slot[64];
    std::atomic<int> stop{0};
    std::atomic<uint64_t> nStates{0}, nOutcomes{0};
    std::atomic<int> saturated{0};
    std::atomic<uint64_t> tagCount[128];
    char tagName[128][64];
    std::atomic<int> nTags{0}, tagLock{0};
};
constexpr uint64_t TABLE = 1ull << 23;

class Explorer;
class Ctx {
public:
    std::vector<int> want, got, num;
    bool describing = false;
    std::ostringstream out;
    // --- used by harness bodies ---
    int choose(int n, const char* label = "") {
        (void) label;
        if (n <= 0) throw std::logic_error("choose(0)");
        size_t k = got.size();
        if (k >= (size_t) MAXC) throw std::logic_error("too many choices");
        int c = k < want.size() ? want[k] : 0;
        if (c >= n || (k < wantN.size() && wantN[k] != n))
            throw std::logic_error("replay divergence at choice " + std::to_string(k));
        got.push_back(c);
        num.push_back(n);
        if (slot) { slot->c[k] = c; slot->n[k] = n; slot->len = (int) k + 1; }
        return c;
    }
    template <class T> const T& pick(const std::vector<T>& v, const char* label = "") {
        return v[choose((int) v.size(), label)];
    }
    bool flag(const char* label = "") { return choose(2, label) == 1; }
    // cheap choices made: from here on only one worker continues this subtree
    void shard() {
        if (workers <= 1) return;
        uint64_t h = got.size();
        for (int c : got) h = mix(h, (uint64_t) c);
        if (!haveShard || h != lastShard) { haveShard = true; lastShard = h; shardIdx++; }
        if ((int) (shardIdx % workers) != worker) throw Skip{};
    }
    void prune() { pruned = true; throw Skip{}; }
    void nontrivial() { isNontrivial = true; }
    void transition(int k = 1) { if (slot) slot->transitions += k; }
    void state(uint64_t h) { add(stateTable, h, true); }
    void outcome(uint64_t h) { add(outcomeTable, h, false); }
    void inconclusive() { if (slot) slot->inconclusive++; }
    void tag(const std::string& name, uint64_t k = 1); // named counter
    [[noreturn]] void fail(const std::string& m) { throw Violation{m}; }
    void check(bool ok, const std::string& m) { if (!ok) fail(m); }

private:
    friend class Explorer;
    Slot* slot = nullptr;
    Shared* sh = nullptr;
    std::vector<int> wantN;
    int worker = 0, workers = 1;
    bool haveShard = false, pruned = false, isNontrivial = false;
    uint64_t lastShard = 0;
    int64_t shardIdx = -1;
    std::atomic<uint64_t>* stateTable = nullptr;
    std::atomic<uint64_t>* outcomeTable = nullptr;
    void add(std::atomic<uint64_t>* t, uint64_t h, bool isState) {
        if (!t) return;
        if (h == 0) h = 1;
        uint64_t i = mix(h, 77) & (TABLE - 1);
        for (int probe = 0; probe < 64; probe++, i = (i + 1) & (TABLE - 1)) {
            uint64_t cur = t[i].load(std::memory_order_relaxed);
            if (cur == h) return;
            if (cur == 0) {
                uint64_t exp = 0;
                if (t[i].compare_exchange_strong(exp, h)) { (isState ? sh->nStates : sh->nOutcomes)++; return; }
                if (exp == h) return;
            }
        }
        sh->saturated = 1;
    }
};

// ---------------------------------------------------------------- guarded calls into the code under test
extern jmp_buf* exitEnv;
extern int exitCode;
enum class End { Ok, Exit, Throw };
struct Outcome {
    End end = End::Ok;
    int code = 0;
    std::string what;
    bool ok() const { return end == End::Ok; }
    bool failed() const { return end == End::Throw || (end == End::Exit && code != 0); }
    std::string str() const {
        if (end == End::Ok) return "returned";
        if (end == End::Exit) return "exit(" + std::to_string(code) + ")";
        return "exception: " + what;
    }
};
template <class F> Outcome guarded(F&& f) {
    Outcome o;
    jmp_buf env;
    jmp_buf* saved = exitEnv;
    if (setjmp(env) == 0) {
        exitEnv = &env;
        try { f(); } catch (const Skip&) { exitEnv = saved; throw; } catch (const Violation&) { exitEnv = saved; throw; }
        catch (const std::exception& e) { o.end = End::Throw; o.what = e.what(); }
        catch (...) { o.end = End::Throw; o.what = "unknown"; }
    } else {
        o.end = End::Exit;
        o.code = exitCode;
    }
    exitEnv = saved;
    return o;
}

std::string quote(const std::string& s);
std::string num(double d);

using Body = std::function<void(Ctx&)>;
// Runs the whole tool: parses argv, explores or replays, writes the result file. Returns the exit code.
//   harness MODE --tier quick|thorough --result FILE --replay-out FILE [--workers N] [--deadline S]
//   harness MODE --tier T --replay FILE
struct Options {
    std::string mode, tier = "quick", result, replayOut, replay, scratch;
    int workers = 8;
    double deadline = 700;
    bool thorough() const { return tier == "thorough"; }
};
extern Options opt;
int mainWith(int argc, char** argv, const std::map<std::string, Body>& modes, std::function<void()> workerInit = nullptr);

} // namespace mc
