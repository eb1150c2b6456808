// Simulated kernel: processes, descriptors, ptys, pipes, edge-triggered epoll.
// All state is plain data in shared memory, so that the child branch of a
// (real, immediately awaited) fork leaves its effects behind.
#pragma once
#include "core.h"

namespace kern {
enum { NFD = 64, NOFD = 256, NPROC = 48, NPTY = 40, NPIPE = 48, NEP = 8, NENT = 48 };
enum Type { FREE, OTHER, MASTER, SLAVE, PIPE_R, PIPE_W, EP };
struct Ofd { int type, obj, refs, flags; };
struct Proc {
    bool used, alive, returned, exited, crashed, killed, sent; int exit_code, sid, ctty;
    int fd[NFD]; bool cloexec[NFD];
    u64 live0, live1;      // allocator blocks before the fork / when the child came back
    int nfault, nsoft;     // injected failures that hit this process; interrupted calls among those reported apart
    char last[32];
    u64 sigmask; u8 disp[65]; // blocked signals; 0 default, 1 ignored, 2 handled
};
struct Buf { // byte queue
    u32 head, len, cap; u8 d[1 << 16];
    void push(const u8 *p, u32 n) { for (u32 i = 0; i < n; ++i) d[(head + len++) & 0xffff] = p[i]; }
    u32 pop(u8 *p, u32 n) { if (n > len) n = len; for (u32 i = 0; i < n; ++i) p[i] = d[(head + i) & 0xffff]; head = (head + n) & 0xffff; len -= n; return n; }
};
struct Pty {
    bool used, granted, unlocked, master_open, other_closed; int slaves; u32 visible, wake_at;
    unsigned short rows, cols; int nresize, sig, nsig; u32 iflag, oflag, cflag, lflag; u8 cc[32];
    Buf in, out;           // in: client -> master, out: master -> client
};
struct Pipe { bool used; int r, w; u32 len; u8 d[256]; };
struct Ent { bool used; int ofd, fd; u32 events; u64 data; bool ready, disarmed; u64 order; };
struct Epoll { bool used; Ent e[NENT]; };
struct Fault { int child, at, kind, val; }; // kind 0 errno of this call, 1 short transfer of val bytes, 2 killed, 3 interrupted, 4 like 0, and all later calls of this kind fail too
struct K {
    int cur;               // process making system calls
    int next_pid, nproc; u64 order;
    int max_fd;            // descriptor limit of every process
    u64 calls, eintr, eagain, shorts, errs, bad_close, bad_use;
    char bad[64];
    Ofd ofd[NOFD]; Proc p[NPROC]; Pipe pipe[NPIPE]; Epoll ep[NEP];
    Pty pty[NPTY];
};
extern K *k;
void reset();
// faults that apply to the system calls of the next library call
void arm(const std::vector<Fault> &f);
void disarm();
extern std::function<void(int)> on_call; // before the n-th system call of a library call (parent only)
extern std::function<void(const char *)> on_note;
bool in_child();
void child_back();                        // the child branch came back from the library (does not return)
void exec(int proc);                      // close-on-exec descriptors go
void kill_proc(int proc); void client_hup(int proc); bool client_reopen(int proc, int pty);
int open_fds(int proc);
int clone_proc(int from);                 // a background process that shares the descriptors
// client side, through descriptor fd of a process
int slave_of(int proc, int fd);           // pty behind descriptor, or -1
u32 client_write(int proc, int fd, const u8 *d, u32 n);
u32 client_read(int proc, int fd, u8 *d, u32 n);
void deliver(int pty, u32 n);             // n more bytes written by the client become readable
bool ep_ready(int proc, int fd);          // would waiting on the epoll descriptor return at once
extern int fault_hits, last_child;
}
