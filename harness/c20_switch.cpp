// C20: the machine code of switch_to, translated instruction by instruction:
// suspend one coroutine, run another with any registers, resume the first.
#include "l2.h"
#include "lift.h"
using namespace cocpp;
#define REGS(X) X(r8) X(r9) X(r10) X(r11) X(r12) X(r13) X(r14) X(r15) X(rdi) X(rsi) X(rbp) X(rbx) X(rdx) X(rax) X(rcx)
#define KEPT(X) X(r12) X(r13) X(r14) X(r15) X(rbp) X(rbx) X(rdi) X(rsi) X(rdx) X(rcx) X(r8) X(r9)
static VfCpu any()
{
    VfCpu c {};
#define X(r) c.r = vf_nondet(#r, 64);
    REGS(X)
#undef X
    c.fl = (vf_nondet("fl", 12) & 0xcd5) | 0x202;
    return c;
}
#define REC 33 // a context record: 32 saved values and the previous context
#define STK (2 + (1 << DEPTHBITS))
static unsigned long rec[3][REC], stk[2][STK], old[2][STK], outside[2];
static void save() { for (int k = 0; k < 2; k++) for (int i = 0; i < STK; i++) old[k][i] = stk[k][i]; }
// everything above word d of stack k, and everything more than one word below it
static void unchanged(int k, long d, const char *msg)
{
    for (int i = 0; i < STK; i++) vf_assert((i <= d) & (i >= d - 1) | (stk[k][i] == old[k][i]), msg);
}
static long depth(const char *name) { return 2 + (long)vf_nondet(name, DEPTHBITS); }
static void call(VfCpu &c, int from, int to, long depth, unsigned long ret) // call switch_to(rec[from], rec[to]) with rsp at depth
{
    c.rdi = (unsigned long)rec[from];
    c.rsi = (unsigned long)rec[to];
    c.rsp = (unsigned long)&stk[from][depth];
    stk[from][depth] = ret;
    save();
    vf_cpu_run(c);
}
extern "C" void vf_main()
{
    for (auto &k : stk) for (auto &x : k) x = vf_nondet("stack", 64);
    for (auto &x : rec[0]) x = vf_nondet("record", 64);
    rec[2][0] = outside[0] = vf_nondet("outside", 64);
    long da = depth("depth"), db = depth("depth"), dd = depth("depth");
    // a second coroutine, suspended before in the same way
    VfCpu b = any(), b0;
    unsigned long retb = vf_target("retb"), reta = vf_target("reta");
    {
        unsigned long *dummy = rec[2]; // a third record, to suspend it
        dummy[15] = (unsigned long)&stk[0][STK - 1];
        dummy[16] = vf_target("third");
        dummy[17] = 0x202;
        VfCpu c = b;
        c.rdi = (unsigned long)rec[1];
        c.rsi = (unsigned long)rec[2];
        c.rsp = (unsigned long)&stk[1][db];
        stk[1][db] = retb;
        b0 = c;
        vf_cpu_run(c);
    }
    // the first coroutine switches to the second
    VfCpu a = any(), c = a;
    unsigned long keep[REC];
    for (int i = 0; i < REC; i++) keep[i] = rec[1][i];
    call(c, 0, 1, da, reta);
    VfCpu a0 = a;
    a0.rdi = (unsigned long)rec[0];
    a0.rsi = (unsigned long)rec[1];
    a0.rsp = (unsigned long)&stk[0][da];
    vf_assert(c.rip == retb, "the second coroutine continues elsewhere");
    vf_assert(c.rsp == b0.rsp + 8, "the second coroutine continues with another stack pointer");
    vf_assert((c.fl & 0xcd5) == (b0.fl & 0xcd5), "the second coroutine continues with other flags");
#define X(r) vf_assert(c.r == b0.r, "the second coroutine continues with another " #r);
    KEPT(X)
#undef X
    unchanged(0, da, "the suspended stack was changed outside the words at and below its stack pointer");
    unchanged(1, db, "the resumed stack was changed outside the words at and below its stack pointer");
    for (int i = 0; i < 32; i++) vf_assert(rec[1][i] == keep[i], "the record of the resumed coroutine was changed");
    vf_assert(rec[1][32] == (unsigned long)rec[0], "the previous context is not recorded");
    // anything happens there, then it switches back
    VfCpu d = any();
    call(d, 1, 0, dd, vf_target("retd"));
    vf_assert(d.rip == reta, "the first coroutine does not return from the call");
    vf_assert(d.rsp == a0.rsp + 8, "the first coroutine returns with another stack pointer");
    vf_assert((d.fl & 0xcd5) == (a0.fl & 0xcd5), "the first coroutine returns with other flags");
#define X(r) vf_assert(d.r == a0.r, "the first coroutine returns with another " #r);
    KEPT(X)
#undef X
    unchanged(0, da, "the stack was changed above the stack pointer when resuming");
    unchanged(1, dd, "the other stack was changed outside the words at and below its stack pointer");
    vf_reach("end");
}
