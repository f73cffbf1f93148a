// C31: read_n and write_n over a transport that splits, blocks and fails at will.
#define IO_OWN_RW
#include "io.h"
#include "cocpp/io/co_client.h"
using namespace cocpp;
#ifndef LEN
#define LEN 4
#endif
struct Client : co_client {
    Client(co_net n) { endpoint__ = n; }
    std::tuple<size_t, co_error> read(co_buffer &b) override { return co_client::read(b); }
    co_error read_n(co_buffer &b) override { return co_client::read_n(b); }
    std::tuple<size_t, co_error> write(const co_buffer &b) override { return co_client::write(b); }
    co_error write_n(const co_buffer &b) override { return co_client::write_n(b); }
    co_error close() override { return co_client::close(); }
    co_net get_endpoint() override { return endpoint__; }
};
static unsigned char wire[LEN];
static size_t moved, len;
static bool wr;
static int temps;
static bool failed, ended;
static long step(size_t n) // how many bytes move now
{
    vf_assert(!failed && !ended, "the transfer went on after it had failed or ended");
    vf_assert(n >= 1 && n <= len - moved, "more bytes asked for than are missing");
    unsigned c = (unsigned)vf_concrete(vf_choice("outcome", 4));
    if (c == 1 && temps < 2) { temps++; errno = EAGAIN; return -1; }
    if (c == 2) { failed = true; errno = ECONNRESET; return -1; }
    if (c == 3) { ended = true; return 0; } // closed by the peer
    size_t k = (size_t)vf_concrete(vf_choice("bytes", LEN + 1));
    vf_assume(k >= 1 && k <= n);
    return (long)k;
}
static const co_byte *base;
extern "C" long __vfs_read(int fd, void *b, size_t n)
{
    vf_assert(fd == 5, "another descriptor was used");
    vf_assert((co_byte *)b == base + moved, "bytes are stored at the wrong place");
    long k = step(n);
    for (long i = 0; i < k; i++) ((unsigned char *)b)[i] = wire[moved + i];
    if (k > 0) moved += k;
    return k;
}
extern "C" long __vfs_write(int fd, const void *b, size_t n)
{
    vf_assert(fd == 5, "another descriptor was used");
    vf_assert((co_byte *)b == base + moved, "bytes are taken from the wrong place");
    long k = step(n);
    if (k > 0) {
        for (long i = 0; i < k; i++) vf_assert(((unsigned char *)b)[i] == wire[moved + i], "wrong bytes were sent");
        moved += k;
    }
    return k;
}
extern "C" void vf_main()
{
    l1_setup(0);
    l1_enter();
    l1_ghost(moved, len, wr, temps);
    co_net s;
    s.init_fd(5);
    Client cl(s);
    len = (size_t)vf_concrete(vf_choice("len", LEN + 1));
    wr = vf_concrete(vf_choice("write", 2));
    for (size_t i = 0; i < LEN; i++) wire[i] = (unsigned char)vf_nondet("byte", 8);
    co_buffer buf(len);
    base = buf.data();
    co_error e;
    if (wr) {
        for (size_t i = 0; i < len; i++) buf[i] = (co_byte)wire[i];
        e = cl.write_n(buf);
    } else {
        e = cl.read_n(buf);
        if (moved == len) for (size_t i = 0; i < len; i++) vf_assert((unsigned char)buf[i] == wire[i], "wrong bytes were received");
    }
    bool err = e.code() != co_error_code::ok;
    vf_assert(err == (moved < len), "success reported although bytes are missing, or an error although all were transferred");
    vf_assert(!err || failed || ended, "an error was reported without a cause");
    vf_reach("end");
}
