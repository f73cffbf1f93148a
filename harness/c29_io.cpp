// C29: one I/O operation of any kind with any arguments; the system answers up
// to TRIES times with any results.
#include "io.h"
using namespace cocpp;
extern "C" void vf_main()
{
    l1_setup(0);
    l1_enter();
    co_net s;
    int fd = (int)vf_nondet("fd", 20);
    io_flags = (int)vf_nondet("flags", 31);
    s.init_fd(fd);
    vf_assert((io_flags & O_NONBLOCK) && io_fd_of_flags == fd, "the descriptor is not in non-blocking mode");
    unsigned long buf = vf_nondet("buf", 47), n = vf_nondet("count", 40), ad = vf_nondet("addr", 47), al = vf_nondet("addrlen", 31), fl = vf_nondet("msgflags", 31);
    int op = (int)vf_concrete(vf_choice("op", 12));
    long r = -2;
    bool retries = true;
    unsigned long want[6] = {(unsigned long)fd, buf, n, 0, 0, 0};
    void *b = (void *)buf;
    auto *sa = (sockaddr *)ad;
    switch (op) {
    case READ: r = s.read(b, n); break;
    case WRITE: r = s.write(b, n); break;
    case SEND: want[3] = fl; r = s.send(b, n, (int)fl); break;
    case SENDTO: want[3] = fl; want[4] = ad; want[5] = al; r = s.sendto(b, n, (int)fl, sa, (socklen_t)al); break;
    case RECV: want[3] = fl; r = s.recv(b, n, (int)fl); break;
    case RECVFROM: want[3] = fl; want[4] = ad; want[5] = buf; r = s.recvfrom(b, n, (int)fl, sa, (socklen_t *)b); break;
    case SENDMSG: want[2] = fl; r = s.sendmsg((msghdr *)b, (int)fl); break;
    case RECVMSG: want[2] = fl; r = s.recvmsg((msghdr *)b, (int)fl); break;
    case ACCEPT: {
        io_flags = (int)vf_nondet("flags", 31);
        want[1] = ad; want[2] = buf;
        auto c = s.accept(sa, (socklen_t *)b);
        vf_assert(c.has_value() == (io_log[io_n - 1].ret >= 0), "accept reports failure and success wrongly");
        r = -1;
        if (c) {
            r = io_log[io_n - 1].ret;
            vf_assert((io_flags & O_NONBLOCK) && io_fd_of_flags == r, "the accepted descriptor is not in non-blocking mode");
            vf_assert(c->fd__ == r, "another descriptor than the accepted one");
        }
        break;
    }
    case CLOSE: {
        retries = false;
        want[1] = want[2] = 0;
        r = s.close();
        vf_assert(s.fd__ == (r == 0 ? -1 : fd), "close forgot the descriptor although it failed, or kept it although it succeeded");
        break;
    }
    case FCNTL: retries = false; want[1] = F_SETOWN; want[2] = n; r = s.fcntl(F_SETOWN, n); break;
    case IOCTL: retries = false; want[1] = FIONREAD; want[2] = buf; r = s.ioctl(FIONREAD, b); break;
    }
    vf_assert(io_n >= 1, "the system was not called");
    for (int i = 0; i < io_n; i++) {
        IoCall &l = io_log[i];
        vf_assert(l.op == op, "another operation was performed");
        for (int k = 0; k < 6; k++) vf_assert(l.a[k] == want[k], "arguments were changed");
        if (i + 1 < io_n) {
            vf_assert(retries && l.ret == -1 && io_temp(l.err), "a final answer was ignored");
            if (l.err != EINTR) vf_assert(io_log[i + 1].yields > l.yields, "no yield between attempts");
        }
    }
    IoCall &l = io_log[io_n - 1];
    vf_assert(r == l.ret, "another result than the system's was reported");
    if (retries) vf_assert(!(l.ret == -1 && io_temp(l.err)), "would-block or an interruption was reported");
    if (r == -1) vf_assert(errno == l.err, "errno was lost");
    if (op == CLOSE) { // a later operation uses the remembered descriptor
        bool was = r == 0;
        io_n = 0;
        s.read(b, n);
        vf_assert((int)io_log[0].a[0] == (was ? -1 : fd), "wrong descriptor after close");
    }
    vf_reach("end");
}
