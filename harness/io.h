// The system calls behind co_io/co_net: each answers with any return value and
// errno; the harness records what they were given.
#pragma once
#define L1_ON_SWITCH(w) io_yields++
static int io_yields;
#include <sys/socket.h>
#include "l1.h"
#include "cocpp/io/co_net.h"
#include "cocpp/io/co_file.h"
#include <cerrno>
#include <cstdarg>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#ifndef TRIES
#define TRIES 3
#endif
struct IoCall {
    int op;               // what was called
    unsigned long a[6];   // arguments
    long ret;
    int err;
    int yields;           // yields before the call
};
static IoCall io_log[TRIES + 2];
static int io_n;
static bool io_temp(int e) { return e == EAGAIN || e == EWOULDBLOCK || e == EINTR; }
// any result in -1..max; an error with any errno; the last allowed attempt does not ask for another one
static long io_answer(int op, unsigned long a, unsigned long b, unsigned long c, unsigned long d, unsigned long e, unsigned long f, long max)
{
    vf_assert(io_n < TRIES, "called again after a final answer");
    IoCall &l = io_log[io_n++];
    l.op = op;
    l.a[0] = a; l.a[1] = b; l.a[2] = c; l.a[3] = d; l.a[4] = e; l.a[5] = f;
    l.yields = io_yields;
    long r = (long)(int)vf_nondet("ret", 32);
    vf_assume(r >= -1 && r <= max);
    int er = 1 + (int)vf_nondet("errno", 7);
    if (io_n == TRIES) vf_assume(!(r == -1 && io_temp(er)));
    errno = r == -1 ? er : (int)vf_nondet("stale", 7); // errno is meaningless after success
    l.ret = r;
    l.err = er;
    return r;
}
enum { READ, WRITE, SEND, SENDTO, RECV, RECVFROM, SENDMSG, RECVMSG, ACCEPT, CLOSE, FCNTL, IOCTL, LSEEK, FTRUNCATE };
static int io_flags; // descriptor flags seen by fcntl
static bool io_flags_set;
extern "C" {
#ifndef IO_OWN_RW
long __vfs_read(int fd, void *b, size_t n) { return io_answer(READ, fd, (long)b, n, 0, 0, 0, 0x7ffff000); }
long __vfs_write(int fd, const void *b, size_t n) { return io_answer(WRITE, fd, (long)b, n, 0, 0, 0, 0x7ffff000); }
#endif
long __vfs_send(int fd, const void *b, size_t n, int fl) { return io_answer(SEND, fd, (long)b, n, fl, 0, 0, 0x7ffff000); }
long __vfs_sendto(int fd, const void *b, size_t n, int fl, const void *ad, socklen_t al) { return io_answer(SENDTO, fd, (long)b, n, fl, (long)ad, al, 0x7ffff000); }
long __vfs_recv(int fd, void *b, size_t n, int fl) { return io_answer(RECV, fd, (long)b, n, fl, 0, 0, 0x7ffff000); }
long __vfs_recvfrom(int fd, void *b, size_t n, int fl, void *ad, socklen_t *al) { return io_answer(RECVFROM, fd, (long)b, n, fl, (long)ad, (long)al, 0x7ffff000); }
long __vfs_sendmsg(int fd, const msghdr *m, int fl) { return io_answer(SENDMSG, fd, (long)m, fl, 0, 0, 0, 0x7ffff000); }
long __vfs_recvmsg(int fd, msghdr *m, int fl) { return io_answer(RECVMSG, fd, (long)m, fl, 0, 0, 0, 0x7ffff000); }
int __vfs_accept(int fd, sockaddr *a, socklen_t *l) { return (int)io_answer(ACCEPT, fd, (long)a, (long)l, 0, 0, 0, 0xfffff); }
int __vfs_close(int fd) { return (int)io_answer(CLOSE, fd, 0, 0, 0, 0, 0, 0); }
long __vfs_lseek(int fd, long o, int w) { return io_answer(LSEEK, fd, o, w, 0, 0, 0, 0x7fffffff); }
int __vfs_ftruncate(int fd, long o) { return (int)io_answer(FTRUNCATE, fd, o, 0, 0, 0, 0, 0); }
static int io_fd_of_flags = -2;
int __vfs_fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    unsigned long arg = va_arg(ap, unsigned long);
    va_end(ap);
    if (cmd == F_GETFL) { io_fd_of_flags = fd; return io_flags; }
    if (cmd == F_SETFL) { vf_assert(fd == io_fd_of_flags, "flags set on another descriptor"); io_flags = (int)arg; return 0; }
    return (int)io_answer(FCNTL, fd, cmd, arg, 0, 0, 0, 0x7fffffff);
}
int __vfs_ioctl(int fd, unsigned long cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    unsigned long arg = va_arg(ap, unsigned long);
    va_end(ap);
    return (int)io_answer(IOCTL, fd, cmd, arg, 0, 0, 0, 0x7fffffff);
}
char *__vfs_strerror(int) { static char s[] = "error"; return s; }
}
