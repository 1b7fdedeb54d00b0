// Runs a program under ptrace and disturbs one system call on files below a directory.
//   tracer DIR LOG KIND K -- program args...
// KIND: none | enospc | eio | eintr.. (the call is not made and fails) | partial (a write takes only half, once)
//       full (from call K on nothing more can be stored: half of the first write, then ENOSPC)
//       kill (the program is killed before call K)
// The calls are counted from 1. LOG lists them: number, name, path, size.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <linux/limits.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>

static const char* dir;
static size_t dirLen;
static void readString(pid_t p, unsigned long addr, char* out, size_t n) {
    struct iovec l, r;
    size_t o = 0;
    while (o + 1 < n) {
        size_t k = 256 - (addr + o) % 256;
        if (k > n - 1 - o) k = n - 1 - o;
        l.iov_base = out + o; l.iov_len = k;
        r.iov_base = (void*) (addr + o); r.iov_len = k;
        if (process_vm_readv(p, &l, 1, &r, 1, 0) <= 0) break;
        if (memchr(out + o, 0, k)) return;
        o += k;
    }
    out[o < n ? o : n - 1] = 0;
}
static void fdPath(pid_t p, int fd, char* out) {
    char b[64];
    if (fd == AT_FDCWD) snprintf(b, 64, "/proc/%d/cwd", p); else snprintf(b, 64, "/proc/%d/fd/%d", p, fd);
    ssize_t k = readlink(b, out, PATH_MAX - 1);
    out[k < 0 ? 0 : k] = 0;
}
static void atPath(pid_t p, int fd, unsigned long addr, char* out) {
    char s[PATH_MAX];
    readString(p, addr, s, sizeof s);
    if (s[0] == '/') { strcpy(out, s); return; }
    fdPath(p, fd, out);
    size_t n = strlen(out);
    snprintf(out + n, PATH_MAX - n, "/%s", s);
}
static int inside(const char* p) { return strncmp(p, dir, dirLen) == 0 && (p[dirLen] == '/' || p[dirLen] == 0); }
// writable descriptors: their flags are in fdinfo
static int writable(pid_t p, int fd) {
    char b[64], line[128];
    snprintf(b, 64, "/proc/%d/fdinfo/%d", p, fd);
    FILE* f = fopen(b, "r");
    int w = 0;
    while (f && fgets(line, 128, f)) if (!strncmp(line, "flags:", 6)) w = (strtol(line + 6, 0, 8) & O_ACCMODE) != O_RDONLY;
    if (f) fclose(f);
    return w;
}
int main(int argc, char** argv) {
    if (argc < 7) return 120;
    dir = argv[1];
    dirLen = strlen(dir);
    FILE* log = fopen(argv[2], "w");
    const char* kind = argv[3];
    long at = atol(argv[4]), n = 0;
    pid_t p = fork();
    if (p == 0) {
        fclose(log);
        ptrace(PTRACE_TRACEME, 0, 0, 0);
        raise(SIGSTOP);
        execv(argv[6], argv + 6);
        _exit(121);
    }
    int st;
    if (waitpid(p, &st, 0) < 0 || !WIFSTOPPED(st)) return 122;
    if (ptrace(PTRACE_SETOPTIONS, p, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL | PTRACE_O_TRACECLONE | PTRACE_O_TRACEEXEC)) return 123;
    ptrace(PTRACE_SYSCALL, p, 0, 0);
    // several threads may exist (the CSV reader has one); entry/exit state per thread
    struct T { pid_t tid; int in; long act; long ret; } th[64];
    int nt = 0;
    int full = 0, rc = 125;
    char path[PATH_MAX], path2[PATH_MAX];
    while (1) {
        pid_t t = waitpid(-1, &st, __WALL);
        if (t < 0) break;
        if (WIFEXITED(st) || WIFSIGNALED(st)) {
            if (t == p) { rc = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st); fprintf(log, "end %s %d\n", WIFEXITED(st) ? "exit" : "signal", WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st)); }
            for (int i = 0; i < nt; i++) if (th[i].tid == t) th[i] = th[--nt];
            continue;
        }
        int i = 0;
        for (; i < nt; i++) if (th[i].tid == t) break;
        if (i == nt) { if (nt == 64) return 124; th[nt++] = (struct T){t, 0, 0, 0}; }
        struct T* T = &th[i];
        int sig = WSTOPSIG(st);
        if (sig != (SIGTRAP | 0x80)) {
            int deliver = sig;
            if (sig == SIGTRAP || sig == SIGSTOP) deliver = 0; // clone and exec events, first stop of a thread
            ptrace(PTRACE_SYSCALL, t, 0, (void*) (long) deliver);
            continue;
        }
        struct user_regs_struct R;
        ptrace(PTRACE_GETREGS, t, 0, &R);
        if (T->in) {
            T->in = 0;
            if (T->act) { R.rax = T->ret; ptrace(PTRACE_SETREGS, t, 0, &R); T->act = 0; }
            ptrace(PTRACE_SYSCALL, t, 0, 0);
            continue;
        }
        T->in = 1;
        const char* name = 0;
        long size = 0;
        int isWrite = 0, isClose = 0, fd = -1, store = 1;
        path[0] = 0;
        switch (R.orig_rax) {
        case SYS_open: if (R.rsi & (O_ACCMODE | O_CREAT | O_TRUNC)) { name = "open"; atPath(t, AT_FDCWD, R.rdi, path); } break;
        case SYS_creat: name = "open"; atPath(t, AT_FDCWD, R.rdi, path); break;
        case SYS_openat: if (R.rdx & (O_ACCMODE | O_CREAT | O_TRUNC)) { name = "open"; atPath(t, (int) R.rdi, R.rsi, path); } break;
        case SYS_mkdir: name = "mkdir"; atPath(t, AT_FDCWD, R.rdi, path); break;
        case SYS_mkdirat: name = "mkdir"; atPath(t, (int) R.rdi, R.rsi, path); break;
        case SYS_rename: name = "rename"; atPath(t, AT_FDCWD, R.rsi, path); break;
        case SYS_renameat: case SYS_renameat2: name = "rename"; atPath(t, (int) R.rdx, R.r10, path); break;
        case SYS_link: name = "link"; atPath(t, AT_FDCWD, R.rsi, path); break;
        case SYS_linkat: name = "link"; atPath(t, (int) R.rdx, R.r10, path); break;
        case SYS_unlink: name = "unlink"; store = 0; atPath(t, AT_FDCWD, R.rdi, path); break;
        case SYS_unlinkat: name = "unlink"; store = 0; atPath(t, (int) R.rdi, R.rsi, path); break;
        case SYS_write: case SYS_pwrite64: case SYS_writev: case SYS_pwritev: name = "write"; isWrite = 1; fd = (int) R.rdi; break;
        case SYS_copy_file_range: name = "copy"; isWrite = 1; fd = (int) R.rdx; break;
        case SYS_sendfile: name = "copy"; isWrite = 1; fd = (int) R.rdi; break;
        case SYS_ftruncate: case SYS_fallocate: name = "truncate"; fd = (int) R.rdi; break;
        case SYS_fsync: case SYS_fdatasync: name = "sync"; fd = (int) R.rdi; break;
        case SYS_close: name = "close"; isClose = 1; store = 0; fd = (int) R.rdi; break;
        }
        if (name && fd >= 0) { fdPath(t, fd, path); if (!inside(path) || !writable(t, fd)) name = 0; }
        if (name && !inside(path)) name = 0;
        if (name) {
            n++;
            if (isWrite) {
                if (R.orig_rax == SYS_write || R.orig_rax == SYS_pwrite64) size = R.rdx;
                else if (R.orig_rax == SYS_copy_file_range) size = R.r8;
                else if (R.orig_rax == SYS_sendfile) size = R.r10;
                else size = R.rdx;
            }
            fprintf(log, "%ld %s %s %ld\n", n, name, path, R.orig_rax == SYS_copy_file_range || R.orig_rax == SYS_sendfile ? 0 : size);
            int hit = n == at;
            long fail = 0, half = 0;
            if (hit && !strcmp(kind, "kill")) { fprintf(log, "killed\n"); kill(p, SIGKILL); ptrace(PTRACE_SYSCALL, t, 0, 0); continue; }
            if (hit && !strcmp(kind, "enospc")) fail = ENOSPC;
            if (hit && !strcmp(kind, "eio")) fail = EIO;
            if (hit && !strcmp(kind, "eacces")) fail = EACCES;
            if (hit && !strcmp(kind, "partial")) half = 1;
            if (!strcmp(kind, "full") && n >= at && store) { if (!full && isWrite) half = 1; else fail = ENOSPC; full = 1; }
            if (half && isWrite) {
                if ((R.orig_rax == SYS_writev || R.orig_rax == SYS_pwritev) && R.rdx > 1) { R.rdx = 1; }
                else if (R.orig_rax == SYS_write || R.orig_rax == SYS_pwrite64) { if (R.rdx > 1) R.rdx /= 2; }
                else if (R.orig_rax == SYS_copy_file_range) { R.r8 = 7; }
                else if (R.orig_rax == SYS_sendfile) { R.r10 = 7; }
                ptrace(PTRACE_SETREGS, t, 0, &R);
            }
            if (fail) {
                T->act = 1;
                T->ret = -fail;
                if (!isClose) { R.orig_rax = -1; ptrace(PTRACE_SETREGS, t, 0, &R); } // a failing close still closes
            }
        }
        ptrace(PTRACE_SYSCALL, t, 0, 0);
    }
    (void) path2;
    fclose(log);
    return rc;
}
