#include "kernel.h"
#include <cerrno>
#include <cstdarg>
#include <fcntl.h>
#include <signal.h>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <termios.h>
#include <poll.h>
#include <time.h>
#include <unistd.h>

namespace kern {
K *k; std::function<void(int)> on_call; std::function<void(const char *)> on_note; int fault_hits = 0, last_child = -1;
static std::vector<Fault> faults; static std::vector<std::pair<std::string, int>> sticky[2]; static int ncall[2]; static bool armed = false; static bool child = false; static bool in_hook = false;

void reset() {
    if (!k) k = (K *)mmap(nullptr, sizeof(K), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void *)k, 0, offsetof(K, pty));
    for (auto &p : k->pty) memset((void *)&p, 0, offsetof(Pty, in)), p.in.head = p.in.len = p.out.head = p.out.len = 0, p.in.cap = p.out.cap = 4096;
    k->next_pid = 1000; k->nproc = 1; k->max_fd = NFD;
    Proc &p = k->p[0]; p.used = p.alive = true; p.ctty = -1; p.sid = 1;
    for (int &f : p.fd) f = -1;
    k->ofd[0] = {OTHER, 0, 3, 0}; p.fd[0] = p.fd[1] = p.fd[2] = 0;
    disarm(); on_call = nullptr; fault_hits = 0; last_child = -1;
}
void arm(const std::vector<Fault> &f) { faults = f; sticky[0].clear(); sticky[1].clear(); ncall[0] = ncall[1] = 0; armed = true; }
void disarm() { faults.clear(); sticky[0].clear(); sticky[1].clear(); armed = false; ncall[0] = ncall[1] = 0; }
bool in_child() { return child; }
static Proc &me() { return k->p[k->cur]; }

static void wake(int ofd) {
    for (auto &e : k->ep) if (e.used) for (auto &x : e.e) if (x.used && x.ofd == ofd && !x.ready && !x.disarmed) { x.ready = true; x.order = ++k->order; }
}
static void wake_master(int pty) { for (int i = 0; i < NOFD; ++i) if (k->ofd[i].type == MASTER && k->ofd[i].obj == pty) wake(i); }
static u32 poll_mask(int o) {
    Ofd &f = k->ofd[o]; u32 m = 0;
    if (f.type == MASTER) { Pty &p = k->pty[f.obj]; if (p.visible) m |= EPOLLIN; if (p.out.len < p.out.cap) m |= EPOLLOUT; if (p.other_closed) m |= EPOLLHUP; }
    else if (f.type == SLAVE) { Pty &p = k->pty[f.obj]; if (p.out.len) m |= EPOLLIN; if (p.in.len < p.in.cap) m |= EPOLLOUT; if (!p.master_open) m |= EPOLLHUP; }
    else if (f.type == PIPE_R) { Pipe &p = k->pipe[f.obj]; if (p.len) m |= EPOLLIN; if (!p.w) m |= EPOLLHUP; }
    else if (f.type == PIPE_W) { m |= EPOLLOUT; if (!k->pipe[f.obj].r) m |= EPOLLERR; }
    return m;
}
static int new_ofd(int type, int obj, int flags) { for (int i = 0; i < NOFD; ++i) if (!k->ofd[i].refs) { k->ofd[i] = {type, obj, 0, flags}; return i; } return -1; }
static void get(int o) {
    Ofd &f = k->ofd[o]; if (f.refs++) return;
    if (f.type == MASTER) k->pty[f.obj].master_open = true;
    if (f.type == SLAVE) { ++k->pty[f.obj].slaves; k->pty[f.obj].other_closed = false; }
    if (f.type == PIPE_R) ++k->pipe[f.obj].r;
    if (f.type == PIPE_W) ++k->pipe[f.obj].w;
}
static void put(int o) {
    Ofd &f = k->ofd[o]; if (--f.refs) return;
    for (auto &e : k->ep) for (auto &x : e.e) if (x.used && x.ofd == o) x.used = false;
    int t = f.type, b = f.obj; f.type = FREE;
    if (t == MASTER) k->pty[b].master_open = false;
    if (t == SLAVE && !--k->pty[b].slaves) { k->pty[b].other_closed = true; k->pty[b].visible = k->pty[b].in.len; wake_master(b); }
    if (t == PIPE_R) --k->pipe[b].r;
    if (t == PIPE_W) --k->pipe[b].w;
    if (t == EP) k->ep[b].used = false;
}
static int free_fd(Proc &p, int from = 0) { for (int i = from; i < k->max_fd && i < NFD; ++i) if (p.fd[i] < 0) return i; return -1; }
static int install(Proc &p, int o, bool ce) { int i = free_fd(p); if (i < 0) { errno = EMFILE; return -1; } p.fd[i] = o; p.cloexec[i] = ce; get(o); return i; }
static int do_close(Proc &p, int fd) { if (fd < 0 || fd >= NFD || p.fd[fd] < 0) return -1; int o = p.fd[fd]; p.fd[fd] = -1; p.cloexec[fd] = false; put(o); return 0; }
void client_hup(int n) { Proc &p = k->p[n]; for (int i = 0; i < NFD; ++i) if (p.fd[i] >= 0 && k->ofd[p.fd[i]].type == SLAVE) do_close(p, i); }
bool client_reopen(int n, int b) {
    if (!k->pty[b].master_open || slave_of(n, 0) >= 0) return false;
    Proc &p = k->p[n]; int o = new_ofd(SLAVE, b, O_RDWR); if (o < 0) return false;
    for (int i = 0; i < 3; ++i) if (p.fd[i] < 0) { p.fd[i] = o; p.cloexec[i] = false; get(o); }
    return true;
}
void exec(int n) { Proc &p = k->p[n]; for (int i = 0; i < NFD; ++i) if (p.fd[i] >= 0 && p.cloexec[i]) do_close(p, i); for (u8 &d : p.disp) if (d == 2) d = 0; }
void kill_proc(int n) { Proc &p = k->p[n]; for (int i = 0; i < NFD; ++i) if (p.fd[i] >= 0) do_close(p, i); p.alive = false; }
int clone_proc(int from) {
    int n = 1; while (n < NPROC && k->p[n].used) ++n; if (n == NPROC) return -1;
    Proc &c = k->p[n]; c = k->p[from]; for (int i = 0; i < NFD; ++i) if (c.fd[i] >= 0) get(c.fd[i]);
    return n;
}
int open_fds(int n) { int r = 0; for (int f : k->p[n].fd) if (f >= 0) ++r; return r; }
int slave_of(int n, int fd) { Proc &p = k->p[n]; if (fd < 0 || fd >= NFD || p.fd[fd] < 0) return -1; Ofd &f = k->ofd[p.fd[fd]]; return f.type == SLAVE ? f.obj : -1; }
void deliver(int b, u32 n) { Pty &p = k->pty[b]; u32 v = std::min<u64>(p.in.len, (u64)p.visible + n); if (v > p.visible) { p.visible = v; wake_master(b); } }
u32 client_write(int n, int fd, const u8 *d, u32 len) {
    int b = slave_of(n, fd); if (b < 0 || !k->pty[b].master_open) return 0;
    Pty &p = k->pty[b]; u32 room = p.in.cap > p.in.len ? p.in.cap - p.in.len : 0; if (len > room) len = room;
    p.in.push(d, len); return len;
}
u32 client_read(int n, int fd, u8 *d, u32 len) {
    int b = slave_of(n, fd); if (b < 0) return 0;
    Pty &p = k->pty[b]; u32 before = p.out.len; len = p.out.pop(d, len);
    if (len && p.out.len <= p.wake_at) wake_master(b); (void)before;
    return len;
}
static Ent *head(Epoll &e) { Ent *b = nullptr; for (auto &x : e.e) if (x.used && x.ready && (!b || x.order < b->order)) b = &x; return b; }
bool ep_ready(int n, int fd) {
    Proc &p = k->p[n]; if (fd < 0 || fd >= NFD || p.fd[fd] < 0 || k->ofd[p.fd[fd]].type != EP) return false;
    for (auto &x : k->ep[k->ofd[p.fd[fd]].obj].e) if (x.used && x.ready && !x.disarmed && poll_mask(x.ofd) & (x.events | EPOLLHUP | EPOLLERR)) return true;
    return false;
}
static void child_end() { _exit(0); }
void child_back() { Proc &p = me(); p.returned = true; p.live1 = sim_as.live_blocks; child_end(); }

// Returns true if the call fails (errno set). *lim limits a transfer.
static bool enter(const char *name, std::initializer_list<int> errs, bool intr = false, size_t *lim = nullptr, unsigned long req = 0) {
    bool again = !errs.size() && !strcmp(me().last, name); // a loop of calls that cannot fail counts as one
    ++k->calls; snprintf(me().last, sizeof me().last, "%s", name);
    if (!armed || again) return false;
    int c = child ? 1 : 0, n = ncall[c]++;
    if (!c && on_call && !in_hook) { in_hook = true; on_call(n); in_hook = false; }
    std::string key = name; if (req) key += "/" + std::to_string(req);
    for (auto &f : faults) if (f.child == c && f.at == n) {
        if (f.kind == 2) { if (!child) continue; me().killed = true; ++me().nfault; kill_proc(k->cur); child_end(); }
        if (f.kind == 1) { if (lim && *lim > (size_t)f.val) { *lim = std::max(1, f.val); ++k->shorts; ++fault_hits; } continue; }
        if (f.kind == 3) { if (!intr) continue; errno = EINTR; ++k->eintr; ++fault_hits; return true; }
        if (!errs.size()) continue;
        int e = errs.begin()[(unsigned)f.val % errs.size()];
        if (f.kind == 4) { if (e == EINTR) e = errs.begin()[0]; if (e == EINTR) continue; sticky[c].push_back({key, e}); break; }
        errno = e; ++(e == EINTR ? me().nsoft : me().nfault); ++k->errs; ++fault_hits; return true;
    }
    for (auto &y : sticky[c]) if (y.first == key) { errno = y.second; ++me().nfault; ++k->errs; ++fault_hits; return true; }
    return false;
}
static Ofd *ofd_of(int fd) {
    Proc &p = me();
    if (fd < 0 || fd >= NFD || p.fd[fd] < 0) { errno = EBADF; if (fd >= 0) { ++k->bad_use; snprintf(k->bad, sizeof k->bad, "%s(%d)", p.last, fd); } return nullptr; }
    return &k->ofd[p.fd[fd]];
}
static void deadlock(const char *what) { fprintf(stderr, "SIM-HANG: %s blocks for ever\n", what); abort(); }
} // namespace kern
using namespace kern;

extern "C" {
int sim_posix_openpt(int flags) {
    if (enter("posix_openpt", {ENOSPC, EMFILE, ENFILE})) return -1;
    int b = 0; while (b < NPTY && k->pty[b].used) ++b;
    if (b == NPTY) { errno = ENOSPC; return -1; }
    int o = new_ofd(MASTER, b, flags); int fd = install(me(), o, flags & O_CLOEXEC); if (fd < 0) { k->ofd[o].type = FREE; return -1; }
    Pty &p = k->pty[b]; p.used = true; p.visible = 0; p.rows = p.cols = 0; p.other_closed = false; 
    p.iflag = ICRNL | IXON; p.oflag = OPOST | ONLCR; p.cflag = CS8 | CREAD | B38400; p.lflag = ISIG | ICANON | ECHO | ECHOE | ECHOK | ECHOCTL | ECHOKE | IEXTEN;
    memset(p.cc, 0, sizeof p.cc); p.cc[VINTR] = 3; p.cc[VQUIT] = 034; p.cc[VERASE] = 0177; p.cc[VKILL] = 025; p.cc[VEOF] = 4; p.cc[VMIN] = 1; p.cc[VSTART] = 021; p.cc[VSTOP] = 023; p.cc[VSUSP] = 032; p.cc[VWERASE] = 027;
    return fd;
}
int sim_grantpt(int fd) { if (enter("grantpt", {EACCES, EINVAL})) return -1; Ofd *f = ofd_of(fd); if (!f) return -1; if (f->type != MASTER) { errno = EINVAL; return -1; } k->pty[f->obj].granted = true; return 0; }
int sim_unlockpt(int fd) { if (enter("unlockpt", {EINVAL, EIO})) return -1; Ofd *f = ofd_of(fd); if (!f) return -1; if (f->type != MASTER) { errno = EINVAL; return -1; } k->pty[f->obj].unlocked = true; return 0; }
int sim_ptsname_r(int fd, char *b, size_t n) { if (enter("ptsname_r", {ENOTTY})) return errno; Ofd *f = ofd_of(fd); if (!f || f->type != MASTER) return ENOTTY; snprintf(b, n, "/dev/pts/%d", f->obj); return 0; }
char *sim_ptsname(int fd) { static char b[32]; if (enter("ptsname", {ENOTTY})) return nullptr; Ofd *f = ofd_of(fd); if (!f || f->type != MASTER) { errno = ENOTTY; return nullptr; } snprintf(b, sizeof b, "/dev/pts/%d", f->obj); return b; }
int sim_open(const char *path, int flags, ...) {
    if (enter("open", {EMFILE, EIO, ENOENT, EACCES, ENFILE, EINTR})) return -1;
    int b;
    if (sscanf(path, "/dev/pts/%d", &b) == 1 && b >= 0 && b < NPTY && k->pty[b].used && k->pty[b].master_open) {
        if (!k->pty[b].unlocked) { errno = EIO; return -1; }
        int o = new_ofd(SLAVE, b, flags), fd = install(me(), o, flags & O_CLOEXEC); if (fd < 0) { k->ofd[o].type = FREE; return -1; }
        if (!(flags & O_NOCTTY) && me().ctty < 0 && me().sid == k->cur + 1) me().ctty = b;
        return fd;
    }
    if (!strcmp(path, "/dev/ptmx")) return sim_posix_openpt(flags);
    if (!strcmp(path, "/dev/null")) { int o = new_ofd(OTHER, 0, flags); return install(me(), o, flags & O_CLOEXEC); }
    errno = ENOENT; return -1;
}
int sim_open64(const char *p, int f, ...) { return sim_open(p, f); }
int sim_openat(int, const char *p, int f, ...) { return sim_open(p, f); }
int sim_openat64(int, const char *p, int f, ...) { return sim_open(p, f); }
int sim_getpt(void) { return sim_posix_openpt(O_RDWR); }
int sim_pipe2(int v[2], int flags) {
    if (enter("pipe2", {EMFILE, ENFILE})) return -1;
    int b = 0; while (b < NPIPE && (k->pipe[b].r || k->pipe[b].w)) ++b;
    if (b == NPIPE) { errno = ENFILE; return -1; }
    k->pipe[b] = {}; k->pipe[b].used = true;
    int a = free_fd(me()), c = a < 0 ? -1 : free_fd(me(), a + 1); if (c < 0) { errno = EMFILE; return -1; }
    v[0] = install(me(), new_ofd(PIPE_R, b, flags), flags & O_CLOEXEC); v[1] = install(me(), new_ofd(PIPE_W, b, flags), flags & O_CLOEXEC);
    return 0;
}
int sim_pipe(int v[2]) { return sim_pipe2(v, 0); }
int sim_fork(void) {
    if (enter("fork", {EAGAIN, ENOMEM})) return -1;
    int n = 1; while (n < NPROC && k->p[n].used) ++n;
    if (n == NPROC) { errno = EAGAIN; return -1; }
    Proc &c = k->p[n]; c = me(); c.returned = c.exited = c.crashed = c.killed = c.sent = false; c.nfault = c.nsoft = 0; c.live0 = sim_as.live_blocks; c.ctty = me().ctty;
    for (int i = 0; i < NFD; ++i) if (c.fd[i] >= 0) get(c.fd[i]);
    int old = k->cur, pid = k->next_pid + n; last_child = n;
    fflush(nullptr);
    pid_t r = fork();
    if (r < 0) { perror("sim fork"); abort(); }
    if (!r) { child = true; k->cur = n; return 0; }
    int st = 0; while (waitpid(r, &st, 0) < 0 && errno == EINTR) ;
    k->cur = old;
    if (!WIFEXITED(st) || WEXITSTATUS(st)) { c.crashed = true; kill_proc(n); }
    errno = 0;
    return pid;
}
int sim_vfork(void) { return sim_fork(); }
void sim__exit(int code) {
    Proc &p = me();
    if (!child) { fprintf(stderr, "SIM-EXIT: the library ended the application\n"); abort(); }
    p.exited = true; p.exit_code = code; kill_proc(k->cur); child_end();
}
void sim__Exit(int code) { sim__exit(code); }
void sim_exit(int code) { sim__exit(code); }
int sim_close(int fd) {
    bool f = enter("close", {EIO, EINTR}); int e = errno;
    if (do_close(me(), fd)) { ++k->bad_close; snprintf(k->bad, sizeof k->bad, "close(%d)", fd); errno = EBADF; return -1; }
    if (f) { errno = e; if (e != EINTR) --me().nfault; else --me().nsoft; return -1; }
    return 0;
}
int sim_setsid(void) { if (enter("setsid", {EPERM})) return -1; me().sid = k->cur + 1; me().ctty = -1; return k->next_pid + k->cur; }
int sim_dup3(int a, int b, int flags) {
    Ofd *f = ofd_of(a); if (!f) return -1; if (b < 0 || b >= k->max_fd) { errno = EBADF; return -1; }
    int o = me().fd[a]; get(o); if (me().fd[b] >= 0) do_close(me(), b); me().fd[b] = o; me().cloexec[b] = flags & O_CLOEXEC; return b;
}
int sim_dup2(int a, int b) { if (enter("dup2", {EBUSY, EMFILE, EINTR})) return -1; if (a == b) return ofd_of(a) ? b : -1; return sim_dup3(a, b, 0); }
int sim_dup(int a) { if (enter("dup", {EMFILE})) return -1; if (!ofd_of(a)) return -1; return install(me(), me().fd[a], false); }
int sim_fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long v = va_arg(ap, long); va_end(ap);
    if (enter("fcntl", {EMFILE})) return -1;
    Ofd *f = ofd_of(fd); if (!f) return -1;
    if (cmd == F_GETFD) return me().cloexec[fd] ? FD_CLOEXEC : 0;
    if (cmd == F_SETFD) { me().cloexec[fd] = v & FD_CLOEXEC; return 0; }
    if (cmd == F_GETFL) return f->flags & ~O_CLOEXEC;
    if (cmd == F_SETFL) { f->flags = (int)v; return 0; }
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) { int i = free_fd(me(), (int)v); if (i < 0) { errno = EMFILE; return -1; } int o = me().fd[fd]; get(o); me().fd[i] = o; me().cloexec[i] = cmd == F_DUPFD_CLOEXEC; return i; }
    return 0;
}
int sim_fcntl64(int fd, int cmd, long v) { return sim_fcntl(fd, cmd, v); }
static bool tty_of(int fd, int &b) { Ofd *f = ofd_of(fd); if (!f) return false; if (f->type != MASTER && f->type != SLAVE) { errno = ENOTTY; return false; } b = f->obj; return true; }
int sim_tcgetattr(int fd, struct termios *t) { if (enter("tcgetattr", {EIO, EINTR})) return -1; int b; if (!tty_of(fd, b)) return -1; memset(t, 0, sizeof *t); Pty &p = k->pty[b]; memcpy(t->c_cc, p.cc, std::min(sizeof p.cc, sizeof t->c_cc)); t->c_iflag = p.iflag; t->c_oflag = p.oflag; t->c_cflag = p.cflag; t->c_lflag = p.lflag; return 0; }
int sim_tcsetattr(int fd, int, const struct termios *t) { if (enter("tcsetattr", {EIO, EINTR})) return -1; int b; if (!tty_of(fd, b)) return -1; Pty &p = k->pty[b]; memcpy(p.cc, t->c_cc, std::min(sizeof p.cc, sizeof t->c_cc)); p.iflag = t->c_iflag; p.oflag = t->c_oflag; p.cflag = t->c_cflag; p.lflag = t->c_lflag; return 0; }
int sim_ioctl(int fd, unsigned long req, ...) {
    va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
    if (enter("ioctl", {EIO, EPERM, EINTR}, false, nullptr, req)) return -1;
    int b; if (!tty_of(fd, b)) return -1; Pty &p = k->pty[b];
    switch (req) {
    case TIOCSWINSZ: p.rows = ((winsize *)arg)->ws_row; p.cols = ((winsize *)arg)->ws_col; ++p.nresize; return 0;
    case TIOCGWINSZ: ((winsize *)arg)->ws_row = p.rows; ((winsize *)arg)->ws_col = p.cols; return 0;
    case TIOCSCTTY: if (me().sid != k->cur + 1) { errno = EPERM; return -1; } me().ctty = b; return 0;
    case TIOCSIG: if ((long)arg <= 0 || (long)arg > 64) { errno = EINVAL; return -1; } p.sig = (int)(long)arg; ++p.nsig; return 0;
    case TIOCSPTLCK: p.unlocked = !*(int *)arg; return 0;
    case TIOCGPTN: *(int *)arg = b; return 0;
    case TIOCNOTTY: me().ctty = -1; return 0;
    }
    errno = EINVAL; return -1;
}
ssize_t sim_read(int fd, void *buf, size_t n) {
    size_t lim = n; if (enter("read", {EIO}, true, &lim)) return -1;
    Ofd *f = ofd_of(fd); if (!f) return -1;
    if (f->type == MASTER) {
        Pty &p = k->pty[f->obj];
        if (p.visible) { u32 m = p.in.pop((u8 *)buf, (u32)std::min<size_t>(lim, p.visible)); p.visible -= m; return m; }
        if (p.other_closed) { errno = EIO; return -1; }
        if (f->flags & O_NONBLOCK) { ++k->eagain; errno = EAGAIN; return -1; }
        deadlock("read of the terminal");
    }
    if (f->type == PIPE_R) {
        Pipe &p = k->pipe[f->obj];
        if (!p.len) for (int i = 1; i < NPROC; ++i) if (k->p[i].used && k->p[i].alive && k->p[i].returned) exec(i);
        if (p.len) { size_t m = std::min<size_t>(lim, p.len); memcpy(buf, p.d, m); memmove(p.d, p.d + m, p.len - m); p.len -= m; return m; }
        if (!p.w) return 0;
        if (f->flags & O_NONBLOCK) { errno = EAGAIN; return -1; }
        deadlock("read of the setup pipe");
    }
    if (f->type == SLAVE) { Pty &p = k->pty[f->obj]; if (p.out.len) return p.out.pop((u8 *)buf, lim); errno = p.master_open ? EAGAIN : EIO; return -1; }
    return 0;
}
ssize_t sim_writev(int fd, const struct iovec *v, int nv) {
    size_t tot = 0; for (int i = 0; i < nv; ++i) tot += v[i].iov_len;
    size_t lim = tot; if (enter("write", {EIO}, true, &lim)) return -1;
    Ofd *f = ofd_of(fd); if (!f) return -1;
    if (f->type == MASTER) {
        Pty &p = k->pty[f->obj];
        if (!tot) return 0;
        u32 room = p.out.cap > p.out.len ? p.out.cap - p.out.len : 0;
        if (!room) { if (f->flags & O_NONBLOCK) { ++k->eagain; errno = EAGAIN; return -1; } deadlock("write to the terminal"); }
        size_t left = std::min<size_t>(lim, room), done = left;
        for (int i = 0; i < nv && left; ++i) { size_t m = std::min(left, v[i].iov_len); p.out.push((const u8 *)v[i].iov_base, m); left -= m; }
        return done;
    }
    if (f->type == PIPE_W) { Pipe &p = k->pipe[f->obj]; if (!p.r) { errno = EPIPE; return -1; } size_t m = std::min<size_t>(lim, sizeof p.d - p.len), left = m; for (int i = 0; i < nv && left; ++i) { size_t q = std::min(left, v[i].iov_len); memcpy(p.d + p.len, v[i].iov_base, q); p.len += q; left -= q; } if (m) me().sent = true; return m; }
    if (f->type == SLAVE) { Pty &p = k->pty[f->obj]; size_t m = 0; for (int i = 0; i < nv && m < lim; ++i) { size_t q = std::min(lim - m, v[i].iov_len); q = std::min<size_t>(q, p.in.cap - p.in.len); p.in.push((const u8 *)v[i].iov_base, q); m += q; } return m; }
    return tot;
}
ssize_t sim_write(int fd, const void *b, size_t n) { struct iovec v = {(void *)b, n}; return sim_writev(fd, &v, 1); }
ssize_t sim_readv(int fd, const struct iovec *v, int nv) { for (int i = 0; i < nv; ++i) if (v[i].iov_len) return sim_read(fd, v[i].iov_base, v[i].iov_len); return 0; }
ssize_t sim_recv(int, void *, size_t, int) { errno = ENOTSOCK; return -1; }
ssize_t sim_send(int, const void *, size_t, int) { errno = ENOTSOCK; return -1; }
int sim_epoll_create1(int flags) {
    if (enter("epoll_create1", {EMFILE, ENFILE, ENOMEM})) return -1;
    int b = 0; while (b < NEP && k->ep[b].used) ++b; if (b == NEP) { errno = EMFILE; return -1; }
    int o = new_ofd(EP, b, flags), fd = install(me(), o, flags & EPOLL_CLOEXEC); if (fd < 0) { k->ofd[o].type = FREE; return -1; }
    memset((void *)&k->ep[b], 0, sizeof k->ep[b]); k->ep[b].used = true; return fd;
}
int sim_epoll_create(int) { return sim_epoll_create1(0); }
int sim_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) {
    if (op != EPOLL_CTL_DEL ? enter("epoll_ctl", {ENOMEM, ENOSPC}) : enter("epoll_ctl", {})) return -1;
    Ofd *e = ofd_of(ep), *f = e ? ofd_of(fd) : nullptr; if (!f) return -1;
    if (e->type != EP) { errno = EINVAL; return -1; }
    Epoll &E = k->ep[e->obj]; int o = me().fd[fd]; Ent *x = nullptr; for (auto &y : E.e) if (y.used && y.ofd == o && y.fd == fd) x = &y;
    if (op == EPOLL_CTL_DEL) { if (!x) { errno = ENOENT; return -1; } x->used = false; return 0; }
    if (op == EPOLL_CTL_ADD) { if (x) { errno = EEXIST; return -1; } for (auto &y : E.e) if (!y.used) { x = &y; break; } if (!x) { errno = ENOSPC; return -1; } memset((void *)x, 0, sizeof *x); x->used = true; x->ofd = o; x->fd = fd; }
    else if (!x) { errno = ENOENT; return -1; }
    x->events = ev->events; x->data = ev->data.u64; x->disarmed = false;
    if (!x->ready && poll_mask(o) & (x->events | EPOLLHUP | EPOLLERR)) { x->ready = true; x->order = ++k->order; }
    return 0;
}
int sim_epoll_wait(int ep, struct epoll_event *ev, int max, int timeout) {
    if (enter("epoll_wait", {}, true)) return -1;
    Ofd *e = ofd_of(ep); if (!e) return -1; if (e->type != EP || max <= 0) { errno = EINVAL; return -1; }
    Epoll &E = k->ep[e->obj]; int n = 0; std::vector<Ent *> again;
    while (n < max) {
        Ent *x = head(E); if (!x) break;
        x->ready = false; u32 m = poll_mask(x->ofd) & (x->events | EPOLLHUP | EPOLLERR);
        if (!m || x->disarmed) continue;
        ev[n].events = m; ev[n].data.u64 = x->data; ++n;
        if (x->events & EPOLLONESHOT) x->disarmed = true; else if (!(x->events & EPOLLET)) again.push_back(x);
    }
    for (auto x : again) { x->ready = true; x->order = ++k->order; }
    if (!n && timeout < 0) deadlock("epoll_wait without a timeout");
    return n;
}
int sim_epoll_pwait(int ep, struct epoll_event *ev, int max, int timeout, const sigset_t *) { return sim_epoll_wait(ep, ev, max, timeout); }
typedef void (*sim_sigfn)(int);
static u8 disp_of(sim_sigfn f) { return f == SIG_DFL ? 0 : f == SIG_IGN ? 1 : 2; }
static bool sig_ok(int s) { if (s > 0 && s < 65 && s != SIGKILL && s != SIGSTOP) return true; errno = EINVAL; return false; }
static sim_sigfn old_fn(int s) { u8 d = me().disp[s]; return d == 0 ? SIG_DFL : d == 1 ? SIG_IGN : (sim_sigfn)0x1000; }
sim_sigfn sim_signal(int s, sim_sigfn f) { if (enter("signal", {})) return SIG_ERR; if (!sig_ok(s)) return SIG_ERR; sim_sigfn o = old_fn(s); me().disp[s] = disp_of(f); return o; }
int sim_sigaction(int s, const struct sigaction *n, struct sigaction *o) { if (enter("sigaction", {})) return -1; if (!sig_ok(s)) return -1; if (o) { memset(o, 0, sizeof *o); o->sa_handler = old_fn(s); } if (n) me().disp[s] = disp_of(n->sa_handler); return 0; }
static void mask(int how, const sigset_t *n, sigset_t *o) {
    u64 m = me().sigmask;
    if (o) { sigemptyset(o); for (int i = 1; i < 65; ++i) if (m >> (i - 1) & 1) sigaddset(o, i); }
    if (!n) return;
    u64 v = 0; for (int i = 1; i < 65; ++i) if (i != SIGKILL && i != SIGSTOP && sigismember(n, i) == 1) v |= 1ull << (i - 1);
    me().sigmask = how == SIG_BLOCK ? m | v : how == SIG_UNBLOCK ? m & ~v : v;
}
int sim_sigprocmask(int how, const sigset_t *n, sigset_t *o) { if (enter("sigprocmask", {EINVAL})) return -1; mask(how, n, o); return 0; }
int sim_pthread_sigmask(int how, const sigset_t *n, sigset_t *o) { if (enter("pthread_sigmask", {})) return EINVAL; mask(how, n, o); return 0; }
int sim_poll(struct pollfd *p, nfds_t n, int timeout) { // enough for waiting on one descriptor
    if (enter("poll", {}, true)) return -1; int r = 0;
    for (nfds_t i = 0; i < n; ++i) { p[i].revents = 0; Ofd *f = ofd_of(p[i].fd); if (f) p[i].revents = poll_mask(me().fd[p[i].fd]) & (p[i].events | POLLHUP | POLLERR); r += !!p[i].revents; }
    if (!r && timeout < 0) deadlock("poll"); return r;
}
int sim_waitpid(int, int *st, int) { enter("waitpid", {}); if (st) *st = 0; errno = ECHILD; return -1; }
int sim_kill(int, int) { enter("kill", {}); return 0; }
int sim_eventfd(unsigned, int) { errno = EMFILE; return -1; }
int sim_nanosleep(const struct timespec *, struct timespec *) { return 0; }
int sim_usleep(unsigned) { return 0; }
time_t sim_time(time_t *t) { if (t) *t = 1000000; return 1000000; }
int sim_gettimeofday(struct timeval *t, void *) { if (t) { t->tv_sec = 1000000; t->tv_usec = 0; } return 0; }
int sim_clock_gettime(int, struct timespec *t) { t->tv_sec = 1000000; t->tv_nsec = 0; return 0; }
int sim_select(int, void *, void *, void *, void *) { errno = ENOSYS; return -1; }
int sim_pselect(int, void *, void *, void *, void *, void *) { errno = ENOSYS; return -1; }
int sim_ppoll(struct pollfd *p, nfds_t n, const struct timespec *, const sigset_t *) { return sim_poll(p, n, 0); }
int sim_tcsetpgrp(int, int) { return enter("tcsetpgrp", {EIO}) ? -1 : 0; }
int sim_getpid(void) { return k->next_pid + k->cur; }
int sim_login_tty(int fd) { if (sim_setsid() < 0 || sim_ioctl(fd, TIOCSCTTY, (char *)0) < 0) return -1; for (int i = 0; i < 3; ++i) if (sim_dup2(fd, i) < 0) return -1; if (fd > 2) sim_close(fd); return 0; }
}
