// C30: connect() with every outcome of the system calls it uses.
#include "io.h"
#include <cstring>
using namespace cocpp;
static int phase;       // 0 not started, 1 in progress, 2 established, 3 failed
static int why;         // errno of the failure
static int polls;
static bool hard;       // poll/select itself failed
static int expect_fd;
static const void *expect_addr;
static void progress() // the connection may complete between two looks at it
{
    if (phase != 1) return;
    unsigned c = (unsigned)vf_concrete(vf_choice("progress", 3));
    if (++polls >= TRIES && c == 0) vf_kill_path(); // bound on the number of looks
    if (c == 1) phase = 2;
    if (c == 2) { phase = 3; why = 1 + (int)vf_nondet("why", 6); }
}
// 0 nothing, 1 ready, -1 error
static int look()
{
    unsigned c = (unsigned)vf_concrete(vf_choice("look", 3));
    if (c == 1) { if (++polls >= TRIES) vf_kill_path(); errno = EINTR; return -1; }
    if (c == 2) { hard = true; errno = ENOMEM; return -1; }
    progress();
    errno = (int)vf_nondet("stale", 7);
    return phase >= 2;
}
extern "C" {
int __vfs_connect(int fd, const sockaddr *a, socklen_t l)
{
    vf_assert(fd == expect_fd && a == expect_addr && l == 16, "arguments were changed");
    if (phase) { // called again: the usual answers for an existing attempt
        progress();
        if (phase == 2) { errno = EISCONN; return -1; }
        if (phase == 3) { errno = why; return -1; }
        errno = EALREADY;
        return -1;
    }
    unsigned c = (unsigned)vf_concrete(vf_choice("connect", 4));
    if (c == 0) { phase = 2; errno = (int)vf_nondet("stale", 7); return 0; }
    if (c == 1) { phase = 1; errno = EINPROGRESS; return -1; }
    if (c == 2) { phase = 1; errno = EINTR; return -1; } // goes on in the background
    phase = 3;
    why = 1 + (int)vf_nondet("why", 6);
    vf_assume(why != EINPROGRESS && why != EINTR && why != EALREADY && why != EISCONN);
    errno = why;
    return -1;
}
int __vfs_select(int n, fd_set *r, fd_set *w, fd_set *x, timeval *)
{
    vf_assert(n == expect_fd + 1 && !r && w && !x && FD_ISSET(expect_fd, w), "select does not wait for the descriptor to become writable");
    int v = look();
    if (v == 0) FD_CLR(expect_fd, w);
    return v;
}
int __vfs_poll(pollfd *p, nfds_t n, int)
{
    vf_assert(n == 1 && p->fd == expect_fd && (p->events & POLLOUT), "poll does not wait for the descriptor to become writable");
    int v = look();
    p->revents = v <= 0 ? 0 : phase == 3 ? POLLOUT | POLLERR | POLLHUP : POLLOUT;
    return v;
}
int __vfs_getsockopt(int fd, int level, int opt, void *v, socklen_t *l)
{
    vf_assert(fd == expect_fd && level == SOL_SOCKET && opt == SO_ERROR && *l == sizeof(int), "unexpected getsockopt");
    *(int *)v = phase == 3 ? why : 0;
    errno = (int)vf_nondet("stale", 7);
    return 0;
}
int __vfs_getpeername(int, sockaddr *, socklen_t *) { if (phase == 2) return 0; errno = ENOTCONN; return -1; }
}
extern "C" void vf_main()
{
    l1_setup(0);
    l1_enter();
    expect_fd = (int)vf_concrete(vf_choice("fd", 2)) ? 2000 : 5; // also one beyond FD_SETSIZE
    io_flags = 0;
    co_net s;
    s.init_fd(expect_fd);
    sockaddr ad {};
    expect_addr = &ad;
    int r = s.connect(&ad, 16);
    vf_assert(r == 0 || r == -1, "connect returned something else than 0 or -1");
    if (r == 0) vf_assert(phase == 2, "connect reported success although the connection was not established");
    else vf_assert(phase == 3 || hard, "connect reported failure although the connection did not fail");
    if (r == -1 && !hard) { vf_assert(errno == why, "the reason of the failure was lost"); vf_reach("failed"); }
    if (r == 0 && polls) vf_reach("established later");
    if (r == 0 && polls >= 2) vf_assert(io_yields > 0, "other coroutines did not run while the connection was in progress");
    vf_reach("end");
}
