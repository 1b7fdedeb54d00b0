#include "mc.hpp"

#include <algorithm>
#include <sys/resource.h>

namespace mc {
jmp_buf* exitEnv = nullptr;
int exitCode     = 0;
Options opt;

std::string quote(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
std::string num(double d) { char b[40]; snprintf(b, 40, "%.17g", d); return b; }

void Ctx::tag(const std::string& name, uint64_t k) {
    if (!sh) return;
    int n = sh->nTags.load();
    for (int i = 0; i < n; i++)
        if (name == sh->tagName[i]) { sh->tagCount[i] += k; return; }
    int z = 0;
    while (!sh->tagLock.compare_exchange_weak(z, 1)) z = 0;
    n = sh->nTags.load();
    int i = 0;
    for (; i < n; i++) if (name == sh->tagName[i]) break;
    if (i == n && n < 128) { snprintf(sh->tagName[n], 64, "%s", name.c_str()); sh->nTags = n + 1; }
    sh->tagLock = 0;
    if (i < 128) sh->tagCount[i] += k;
}

// A case that grows without bound must end with an exception, not with the machine out of memory.
static void limitMemory() {
#if !defined(__SANITIZE_ADDRESS__)
    rlimit l{6ull << 30, 6ull << 30};
    setrlimit(RLIMIT_AS, &l);
#endif
}

class Explorer {
public:
    Body body;
    Shared* sh = nullptr;
    std::atomic<uint64_t>*st = nullptr, *ot = nullptr;

    struct Rec { int end; std::string msg, desc; }; // end: 0 ok 1 violation 2 crash 3 hang 4 error
    Rec replay(const std::vector<int>& choices, double limit) {
        int fd[2];
        if (pipe(fd)) exit(3);
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) {
            close(fd[0]);
            setpgid(0, 0);
            std::string log = opt.replayOut.empty() ? "/dev/null" : opt.replayOut + ".stderr";
            int e = open(log.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
            if (e >= 0) dup2(e, 2);
            limitMemory();
            if (workerInit) workerInit();
            Ctx x;
            x.want = choices;
            x.describing = true;
            std::string res;
            int end = 0;
            try { body(x); } catch (const Violation& v) { end = 1; res = v.msg; }
            catch (const Skip&) { } catch (const std::exception& ex) { end = 4; res = ex.what(); }
            std::string all = std::string(1, char('0' + end)) + res + '\x01' + x.out.str() + '\x02';
            size_t o = 0;
            while (o < all.size()) { ssize_t w = write(fd[1], all.data() + o, all.size() - o); if (w <= 0) break; o += w; }
            _exit(0);
        }
        close(fd[1]);
        std::string got;
        auto t0 = std::chrono::steady_clock::now();
        fcntl(fd[0], F_SETFL, O_NONBLOCK);
        bool hang = false;
        while (true) {
            char buf[65536];
            ssize_t r = read(fd[0], buf, sizeof buf);
            if (r > 0) { got.append(buf, r); continue; }
            if (r == 0) break;
            if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > limit) { hang = true; kill(pid, SIGKILL); break; }
            usleep(2000);
        }
        int status = 0;
        waitpid(pid, &status, 0);
        close(fd[0]);
        Rec r{0, "", ""};
        if (hang) return {3, "the code did not return within " + std::to_string((int) limit) + " s", ""};
        if (got.empty() || got.back() != '\x02') {
            if (WIFSIGNALED(status)) return {2, std::string("the process died: signal ") + std::to_string(WTERMSIG(status)), ""};
            return {2, "the process died: exit status " + std::to_string(WEXITSTATUS(status)) + " (memory error report: see the .stderr file)", ""};
        }
        r.end = got[0] - '0';
        size_t p = got.find('\x01');
        r.msg = got.substr(1, p - 1);
        r.desc = got.substr(p + 1, got.size() - p - 2);
        return r;
    }

    std::function<void()> workerInit;

    void work(int w, int W) {
        Slot& s = sh->slot[w];
        Ctx proto;
        std::vector<int> prefix, prefixN;
        bool haveShard = false; uint64_t lastShard = 0; int64_t shardIdx = -1;
        uint64_t nextSample = 1;
        while (!sh->stop) {
            Ctx x;
            x.want = prefix; x.wantN = prefixN;
            x.slot = &s; x.sh = sh; x.worker = w; x.workers = W;
            x.haveShard = haveShard; x.lastShard = lastShard; x.shardIdx = shardIdx;
            x.stateTable = st; x.outcomeTable = ot;
            s.len = 0;
            s.beat++;
            bool counted = true;
            try { body(x); }
            catch (const Skip&) { counted = false; if (x.pruned) s.pruned++; }
            catch (const Violation& v) {
                snprintf(s.msg, sizeof s.msg, "%s", v.msg.c_str());
                s.violated = 1; sh->stop = 1; return;
            } catch (const std::exception& ex) {
                snprintf(s.msg, sizeof s.msg, "harness error: %s", ex.what());
                s.violated = 2; sh->stop = 1; return;
            }
            haveShard = x.haveShard; lastShard = x.lastShard; shardIdx = x.shardIdx;
            if (!haveShard && w != 0) counted = false; // bodies that never shard belong to worker 0
            if (counted) {
                s.execs++;
                if (x.isNontrivial) {
                    s.nontrivial++;
                    if (s.nontrivial >= nextSample && s.nsamples < 4) {
                        int k = s.nsamples; s.slen[k] = (int) x.got.size();
                        for (size_t i = 0; i < x.got.size(); i++) s.sc[k][i] = x.got[i];
                        s.nsamples = k + 1; nextSample = nextSample * 50 + 13;
                    }
                }
            }
            auto c = x.got, n = x.num;
            while (!c.empty() && c.back() + 1 >= n.back()) { c.pop_back(); n.pop_back(); }
            if (c.empty()) break;
            c.back()++;
            prefix = c; prefixN = n;
        }
        s.done = 1;
    }

    // Runs worker w of W again from its beginning in a fresh process, up to the given case.
    Rec history(int w, int W, const std::vector<int>& upTo) {
        auto* h = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        new (h) Shared();
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) {
            int e = open("/dev/null", O_WRONLY);
            dup2(e, 2); dup2(e, 1);
            limitMemory();
            if (workerInit) workerInit();
            sh = h; st = ot = nullptr;
            work(w, W);
            _exit(0);
        }
        int status = 0;
        waitpid(pid, &status, 0);
        Slot& s = h->slot[w];
        bool same = s.len == (int) upTo.size() && std::equal(upTo.begin(), upTo.end(), s.c);
        Rec r{0, "", ""};
        if (!same) r = {4, "the history diverged", ""};
        else if (s.violated == 1) r = {1, s.msg, ""};
        else if (WIFSIGNALED(status) || WEXITSTATUS(status)) r = {2, "the process died", ""};
        munmap(h, sizeof(Shared));
        return r;
    }

    int explore() {
        auto t0 = std::chrono::steady_clock::now();
        int W = opt.workers;
        sh = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        st = (std::atomic<uint64_t>*) mmap(nullptr, TABLE * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        ot = (std::atomic<uint64_t>*) mmap(nullptr, TABLE * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        new (sh) Shared();
        std::vector<pid_t> pids(W);
        fflush(nullptr);
        for (int w = 0; w < W; w++) {
            pids[w] = fork();
            if (pids[w] == 0) {
                int e = open("/dev/null", O_WRONLY);
                dup2(e, 2);
                dup2(e, 1);
                limitMemory();
                if (workerInit) workerInit();
                work(w, W);
                _exit(0);
            }
        }
        std::vector<uint64_t> lastBeat(W, 0);
        std::vector<double> since(W, 0);
        std::vector<int> alive(W, 1);
        int nAlive = W;
        std::vector<int> bad;
        std::string badMsg;
        bool capped = false;
        auto now = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
        while (nAlive > 0) {
            int status;
            pid_t p = waitpid(-1, &status, WNOHANG);
            if (p > 0) {
                for (int w = 0; w < W; w++)
                    if (pids[w] == p) {
                        alive[w] = 0; nAlive--;
                        Slot& s = sh->slot[w];
                        bool died = WIFSIGNALED(status) || WEXITSTATUS(status) != 0;
                        if (died && bad.empty() && !sh->slot[w].violated) {
                            // ended, also by a lack of memory: the case is judged by replaying it alone
                            bad.assign(s.c, s.c + s.len);
                            badMsg = "crash";
                            sh->stop = 1;
                        }
                    }
                continue;
            }
            double t = now();
            for (int w = 0; w < W; w++) {
                if (!alive[w]) continue;
                uint64_t b = sh->slot[w].beat;
                if (b != lastBeat[w]) { lastBeat[w] = b; since[w] = t; }
                else if (t - since[w] > 60) { // stuck: the schedule is replayed alone below
                    Slot& s = sh->slot[w];
                    if (bad.empty()) { bad.assign(s.c, s.c + s.len); badMsg = "hang"; }
                    sh->stop = 1;
                    kill(pids[w], SIGKILL);
                    since[w] = t;
                }
            }
            if (t > opt.deadline && !sh->stop) { capped = true; sh->stop = 1; }
            usleep(3000);
        }
        for (int w = 0; w < W; w++)
            if (sh->slot[w].violated == 2) { printf("HARNESS-ERROR %s\n", sh->slot[w].msg); return 3; }
        // the violation with the shortest choice list is reported
        for (int w = 0; w < W; w++)
            if (sh->slot[w].violated == 1) {
                Slot& s = sh->slot[w];
                if (bad.empty() || badMsg == "crash" || s.len < (int) bad.size()) { bad.assign(s.c, s.c + s.len); badMsg = s.msg; }
            }
        int violations = 0;
        std::string vmsg, vdesc;
        if (!badMsg.empty()) {
            int badWorker = -1;
            for (int w = 0; w < W; w++) {
                Slot& s = sh->slot[w];
                if (s.len == (int) bad.size() && std::equal(bad.begin(), bad.end(), s.c)) badWorker = w;
            }
            Rec r1 = replay(bad, 100), r2 = replay(bad, 100);
            bool alone = r1.end != 0 && r1.end != 4 && r1.end == r2.end;
            if (!alone) {
                // The case holds on its own: the failure needs the cases that ran before it in the same
                // process (the code keeps state between simulations).  The worker's whole deterministic
                // history is then the counterexample; it must fail again at the same case.
                r1 = badWorker >= 0 ? history(badWorker, W, bad) : Rec{4, "unknown worker", ""};
                if (r1.end == 0 || r1.end == 4) {
                    printf("HARNESS-ERROR violation did not replay (%s): alone %d %s, with its history %d %s\n", badMsg.c_str(), r2.end, r2.msg.c_str(), r1.end, r1.msg.c_str());
                    return 3;
                }
                r1.msg += " (only after the preceding cases in the same process: state leaks from one simulation into the next)";
                r1.desc = r2.desc;
            }
            violations = 1;
            vmsg = r1.msg; vdesc = r1.desc;
            std::ofstream f(opt.replayOut);
            f << "mode " << opt.mode << "\ntier " << opt.tier << "\n";
            if (!alone) f << "history " << badWorker << " " << W << "\n";
            f << "choices";
            for (int c : bad) f << ' ' << c;
            f << "\nmessage " << vmsg << "\n--- description\n" << vdesc << "\n";
        }
        uint64_t ex = 0, nt = 0, pr = 0, tr = 0, inc = 0;
        for (int w = 0; w < W; w++) {
            auto& s = sh->slot[w];
            ex += s.execs; nt += s.nontrivial; pr += s.pruned; tr += s.transitions; inc += s.inconclusive;
        }
        std::ofstream f(opt.result);
        f << "{\"executions\": " << ex << ", \"nontrivial\": " << nt << ", \"pruned\": " << pr << ", \"transitions\": " << tr
          << ", \"states\": " << sh->nStates << ", \"outcomes\": " << sh->nOutcomes << ", \"saturated\": " << sh->saturated
          << ", \"inconclusive\": " << inc << ", \"capped\": " << (capped ? "true" : "false") << ", \"violations\": " << violations << ", \"wall\": " << now()
          << ", \"message\": " << quote(vmsg) << ", \"tags\": {";
        for (int i = 0; i < sh->nTags; i++) f << (i ? ", " : "") << quote(sh->tagName[i]) << ": " << sh->tagCount[i];
        f << "}, \"samples\": [";
        int ns = 0;
        for (int w = 0; w < W && ns < 4; w++)
            for (int k = 0; k < sh->slot[w].nsamples && ns < 4; k++) {
                if (k != std::min(w, sh->slot[w].nsamples - 1)) continue;
                std::vector<int> c(sh->slot[w].sc[k], sh->slot[w].sc[k] + sh->slot[w].slen[k]);
                Rec r = replay(c, 60);
                std::string cs;
                for (int v : c) cs += (cs.empty() ? "" : " ") + std::to_string(v);
                f << (ns++ ? ", " : "") << "{\"choices\": " << quote(cs) << ", \"case\": " << quote(r.desc.substr(0, 1500)) << "}";
            }
        f << "]}\n";
        f.close();
        if (violations) { printf("FOUND %s\n%s\n", vmsg.c_str(), vdesc.substr(0, 3000).c_str()); return 1; }
        return 0;
    }
};

int mainWith(int argc, char** argv, const std::map<std::string, Body>& modes, std::function<void()> init) {
    if (argc < 2) { fprintf(stderr, "usage\n"); return 3; }
    opt.mode = argv[1];
    for (int i = 2; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--tier") opt.tier = v;
        else if (a == "--result") opt.result = v;
        else if (a == "--replay-out") opt.replayOut = v;
        else if (a == "--replay") opt.replay = v;
        else if (a == "--workers") opt.workers = atoi(v.c_str());
        else if (a == "--deadline") opt.deadline = atof(v.c_str());
        else if (a == "--scratch") opt.scratch = v;
    }
    std::vector<int> choices;
    int histW = -1, histN = 0;
    if (!opt.replay.empty()) {
        std::ifstream f(opt.replay);
        std::string line;
        while (std::getline(f, line)) {
            std::istringstream is(line);
            std::string k;
            is >> k;
            if (k == "mode") is >> opt.mode;
            if (k == "tier") is >> opt.tier;
            if (k == "history") is >> histW >> histN;
            if (k == "choices") { int c; while (is >> c) choices.push_back(c); }
            if (k == "---") break;
        }
    }
    auto it = modes.find(opt.mode);
    if (it == modes.end()) { fprintf(stderr, "unknown mode %s\n", opt.mode.c_str()); return 3; }
    Explorer e;
    e.body = it->second;
    e.workerInit = init;
    if (!opt.replay.empty()) {
        auto r = histW >= 0 ? e.history(histW, histN, choices) : e.replay(choices, 300);
        printf("replay: %s %s\n%s\n", r.end == 0 ? "HOLDS" : r.end == 4 ? "ERROR" : "VIOLATED", r.msg.c_str(), r.desc.c_str());
        return r.end == 0 ? 0 : r.end == 4 ? 3 : 1;
    }
    return e.explore();
}
} // namespace mc

extern "C" {
[[noreturn]] void __real_exit(int);
[[noreturn]] void __wrap_exit(int code) {
    if (mc::exitEnv) {
        mc::exitCode = code;
        longjmp(*mc::exitEnv, 1);
    }
    __real_exit(code);
}
}
