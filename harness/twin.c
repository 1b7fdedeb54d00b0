// Runs two programs with every switch between them decided here, at system calls on paths below a directory.
//   twin DIR LOG A B WORK -- program args... ::: program args...
// The first program runs until just before its call A, then the second until just before its call B, then the
// first to its end, then the second.  Standard output and error of each go to WORK/out.0, WORK/err.0, WORK/out.1, ...
// LOG: one line per call (program, number, name, path) and "end PROGRAM exit|signal CODE".
#define _GNU_SOURCE
#include <fcntl.h>
#include <linux/limits.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>

static const char* dir;
static size_t dirLen;
static void readString(pid_t p, unsigned long addr, char* out, size_t n) {
    struct iovec l, r;
    size_t o = 0;
    while (o + 1 < n) {
        size_t k = 256 - (addr + o) % 256;
        if (k > n - 1 - o) k = n - 1 - o;
        l.iov_base = out + o; l.iov_len = k;
        r.iov_base = (void*) (addr + o); r.iov_len = k;
        if (process_vm_readv(p, &l, 1, &r, 1, 0) <= 0) break;
        if (memchr(out + o, 0, k)) return;
        o += k;
    }
    out[o < n ? o : n - 1] = 0;
}
static void fdPath(pid_t p, int fd, char* out) {
    char b[64];
    if (fd == AT_FDCWD) snprintf(b, 64, "/proc/%d/cwd", p); else snprintf(b, 64, "/proc/%d/fd/%d", p, fd);
    ssize_t k = readlink(b, out, PATH_MAX - 1);
    out[k < 0 ? 0 : k] = 0;
}
static void atPath(pid_t p, int fd, unsigned long addr, char* out) {
    char s[PATH_MAX];
    readString(p, addr, s, sizeof s);
    if (s[0] == '/') { strcpy(out, s); return; }
    fdPath(p, fd, out);
    size_t n = strlen(out);
    snprintf(out + n, PATH_MAX - n, "/%s", s);
}
static int inside(const char* p) { return strncmp(p, dir, dirLen) == 0 && (p[dirLen] == '/' || p[dirLen] == 0); }
static pid_t tgid(pid_t t) {
    char b[64], line[128];
    snprintf(b, 64, "/proc/%d/status", t);
    FILE* f = fopen(b, "r");
    int g = t;
    while (f && fgets(line, 128, f)) if (sscanf(line, "Tgid: %d", &g) == 1) break;
    if (f) fclose(f);
    return g;
}

static struct G { pid_t pid; long calls, hold; pid_t held; int started, ended; } g[2];
static int phase = 0;
static const int turn[4] = {0, 1, 0, 1};
static void go(pid_t t) { ptrace(PTRACE_SYSCALL, t, 0, 0); }
// moves on to the next phase whose program has something left to do
static void advance(void) {
    while (phase < 4) {
        struct G* q = &g[turn[phase]];
        if (phase >= 2) q->hold = -1;
        if (q->ended) { phase++; continue; }
        if (!q->started) { q->started = 1; go(q->pid); return; }
        if (q->held && q->calls != q->hold) { pid_t t = q->held; q->held = 0; go(t); return; }
        if (!q->held) return; // running
        phase++;
    }
}
int main(int argc, char** argv) {
    if (argc < 9) return 120;
    dir = argv[1];
    dirLen = strlen(dir);
    FILE* log = fopen(argv[2], "w");
    g[0].hold = atol(argv[3]);
    g[1].hold = atol(argv[4]);
    char** cmd[2] = {argv + 7, 0};
    for (int i = 7; i < argc; i++) if (!strcmp(argv[i], ":::")) { argv[i] = 0; cmd[1] = argv + i + 1; }
    if (!log || !cmd[1] || !cmd[1][0]) return 121;
    for (int k = 0; k < 2; k++) {
        pid_t p = fork();
        if (p == 0) {
            char f[PATH_MAX];
            fclose(log);
            for (int s = 1; s <= 2; s++) {
                snprintf(f, PATH_MAX, "%s/%s.%d", argv[5], s == 1 ? "out" : "err", k);
                int fd = open(f, O_CREAT | O_WRONLY | O_TRUNC, 0644);
                if (fd < 0) _exit(121);
                dup2(fd, s);
                close(fd);
            }
            ptrace(PTRACE_TRACEME, 0, 0, 0);
            raise(SIGSTOP);
            execv(cmd[k][0], cmd[k]);
            _exit(121);
        }
        int st;
        if (waitpid(p, &st, 0) < 0 || !WIFSTOPPED(st)) return 122;
        if (ptrace(PTRACE_SETOPTIONS, p, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL | PTRACE_O_TRACECLONE | PTRACE_O_TRACEEXEC)) return 123;
        g[k].pid = p;
    }
    advance();
    struct T { pid_t tid; int in; int k; } th[64];
    int nt = 0;
    char path[PATH_MAX];
    while (!(g[0].ended && g[1].ended)) {
        int st;
        pid_t t = waitpid(-1, &st, __WALL);
        if (t < 0) break;
        if (WIFEXITED(st) || WIFSIGNALED(st)) {
            for (int i = 0; i < nt; i++) if (th[i].tid == t) th[i] = th[--nt];
            for (int k = 0; k < 2; k++) if (g[k].pid == t) {
                g[k].ended = 1;
                fprintf(log, "end %d %s %d %ld\n", k, WIFEXITED(st) ? "exit" : "signal", WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st), g[k].calls);
                advance();
            }
            continue;
        }
        int i = 0;
        for (; i < nt; i++) if (th[i].tid == t) break;
        if (i == nt) {
            if (nt == 64) return 124;
            pid_t lead = tgid(t);
            th[nt++] = (struct T){t, 0, lead == g[1].pid};
        }
        struct T* T = &th[i];
        int sig = WSTOPSIG(st);
        if (sig != (SIGTRAP | 0x80)) {
            int deliver = sig;
            if (sig == SIGTRAP || sig == SIGSTOP) deliver = 0;
            ptrace(PTRACE_SYSCALL, t, 0, (void*) (long) deliver);
            continue;
        }
        if (T->in) { T->in = 0; go(t); continue; }
        T->in = 1;
        struct user_regs_struct R;
        ptrace(PTRACE_GETREGS, t, 0, &R);
        const char* name = 0;
        int fd = -1;
        path[0] = 0;
        switch (R.orig_rax) {
        case SYS_open: case SYS_creat: name = "open"; atPath(t, AT_FDCWD, R.rdi, path); break;
        case SYS_openat: name = "open"; atPath(t, (int) R.rdi, R.rsi, path); break;
        case SYS_stat: case SYS_lstat: case SYS_access: name = "look"; atPath(t, AT_FDCWD, R.rdi, path); break;
        case SYS_newfstatat: case SYS_statx: case SYS_faccessat: case SYS_faccessat2: name = "look"; atPath(t, (int) R.rdi, R.rsi, path); break;
        case SYS_mkdir: case SYS_rmdir: case SYS_unlink: name = "change"; atPath(t, AT_FDCWD, R.rdi, path); break;
        case SYS_mkdirat: case SYS_unlinkat: name = "change"; atPath(t, (int) R.rdi, R.rsi, path); break;
        case SYS_rename: case SYS_link: name = "change"; atPath(t, AT_FDCWD, R.rsi, path); break;
        case SYS_renameat: case SYS_renameat2: case SYS_linkat: name = "change"; atPath(t, (int) R.rdx, R.r10, path); break;
        case SYS_symlink: name = "change"; atPath(t, AT_FDCWD, R.rsi, path); break;
        case SYS_write: case SYS_pwrite64: case SYS_writev: case SYS_pwritev: case SYS_ftruncate: case SYS_fallocate: name = "write"; fd = (int) R.rdi; break;
        case SYS_sendfile: name = "copy"; fd = (int) R.rdi; break;
        case SYS_copy_file_range: name = "copy"; fd = (int) R.rdx; break;
        }
        if (name && fd >= 0) fdPath(t, fd, path);
        if (name && !inside(path)) name = 0;
        if (!name) { go(t); continue; }
        struct G* q = &g[T->k];
        q->calls++;
        fprintf(log, "%d %ld %s %s\n", T->k, q->calls, name, path);
        if (q->calls == q->hold) { q->held = t; phase++; advance(); }
        else go(t);
    }
    fclose(log);
    return 0;
}
