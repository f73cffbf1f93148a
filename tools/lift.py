#!/usr/bin/env python3
"""Translate the machine code of one function into C++ over a register record.

usage: lift.py SOURCE SYMBOL OUT.h COMPILER-ARGS...

The function is compiled with g++ (as the repository's build does) and
disassembled; every instruction becomes one statement on the record VfCpu.
The raw bytes are included as well, so that a native run executes the real
machine code.  Instructions outside the subset below are refused."""
import re, subprocess, sys, os
R64 = "r8 r9 r10 r11 r12 r13 r14 r15 rdi rsi rbp rbx rdx rax rcx rsp".split()


def fail(s):
    print("lift: " + s)
    sys.exit(2)


def main():
    src, sym, out, args = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4:]
    obj = out + ".o"
    subprocess.check_call(["g++"] + args + ["-c", src, "-o", obj])
    txt = subprocess.check_output(["objdump", "-dr", "-w", "--disassemble=" + sym, obj], text=True)
    m = re.search(r"<" + re.escape(sym) + r">:\n(.*?)(\n\n|\Z)", txt, re.S)
    if not m:
        fail("function not found")
    body, raw, done = [], [], False

    def ea(o):
        m = re.fullmatch(r"(-?0x[0-9a-f]+)?\((%\w+)?(?:,(%\w+)(?:,(\d))?)?\)", o)
        if not m or (m.group(2) and m.group(2)[1:] not in R64):
            fail("operand " + o)
        e = []
        if m.group(2): e.append("c." + m.group(2)[1:])
        if m.group(3):
            if m.group(3)[1:] not in R64: fail("operand " + o)
            e.append(f"c.{m.group(3)[1:]} * {m.group(4) or 1}")
        if m.group(1): e.append(f"(unsigned long){m.group(1)}l")
        return " + ".join(e)

    def rd(o):
        if o.startswith("$"): return f"(unsigned long)(long){o[1:]}l"
        if o.startswith("%"):
            if o[1:] not in R64: fail("operand " + o)
            return "c." + o[1:]
        return f"vf_ld({ea(o)})"

    def wr(o, v):
        if o.startswith("%"):
            if o[1:] not in R64: fail("operand " + o)
            return f"c.{o[1:]} = {v};"
        return f"vf_st({ea(o)}, {v});"

    for line in m.group(1).split("\n"):
        p = line.split("\t")
        if len(p) < 3:
            if len(p) == 2 or not line.strip(): continue
            fail("relocation or unknown line: " + line)
        if "R_X86_64" in line: fail("relocation: " + line)
        raw += p[1].split()
        ins = p[2].split("#")[0].strip()
        if done: continue  # padding after the end
        op, _, rest = ins.partition(" ")
        ops = re.findall(r"(?:[^,(]|\([^)]*\))+", rest.strip()) if rest.strip() else []
        op = {"movq": "mov", "pushq": "push", "popq": "pop", "pushfq": "pushf", "popfq": "popf", "retq": "ret", "leaq": "lea", "addq": "add", "subq": "sub", "movabs": "mov", "xchgq": "xchg"}.get(op, op)
        if op in ("endbr64", "nop", "nopw", "nopl", "data16", "cld"): 
            if op == "cld": body.append("c.fl &= ~0x400ul;")
            continue
        if op == "mov" and len(ops) == 2: body.append(wr(ops[1], rd(ops[0])))
        elif op == "lea" and len(ops) == 2: body.append(wr(ops[1], ea(ops[0])))
        elif op == "xchg" and len(ops) == 2: body.append(f"{{ unsigned long x = {rd(ops[0])}, y = {rd(ops[1])}; {wr(ops[0], 'y')} {wr(ops[1], 'x')} }}")
        elif op in ("add", "sub") and len(ops) == 2:
            body.append(f"{{ unsigned long x = {rd(ops[1])}, y = {rd(ops[0])}; {wr(ops[1], 'x ' + ('+' if op == 'add' else '-') + ' y')} c.fl = vf_flags(); }}")
        elif op == "xor" and len(ops) == 2: body.append(f"{{ unsigned long x = {rd(ops[1])}, y = {rd(ops[0])}; {wr(ops[1], 'x ^ y')} c.fl = vf_flags(); }}")
        elif op == "push": body.append(f"{{ unsigned long v = {rd(ops[0])}; c.rsp -= 8; vf_st(c.rsp, v); }}")
        elif op == "pop":  # a memory operand based on rsp is computed after the increment
            body.append(f"{{ unsigned long v = vf_ld(c.rsp); c.rsp += 8; {wr(ops[0], 'v')} }}")
        elif op == "pushf": body.append("c.rsp -= 8; vf_st(c.rsp, c.fl);")
        elif op == "popf": body.append("c.fl = (vf_ld(c.rsp) & 0xcd5) | 0x202; c.rsp += 8;")
        elif op == "ret": body.append("c.rip = vf_ld(c.rsp); c.rsp += 8; return;"); done = True
        elif op == "jmp" and ops and ops[0].startswith("*"): body.append(f"c.rip = {rd(ops[0][1:])}; return;"); done = True
        else: fail("instruction outside the supported subset: " + ins)
    if not done: fail("no end found")
    save = "".join(f"movq %{r}, {8 * i}+vf_out(%rip)\\n" for i, r in enumerate(R64))
    load = "".join(f"movq {8 * i}(%rdi), %{r}\\n" for i, r in enumerate(R64) if r not in ("rdi", "rsp"))
    with open(out, "w") as f:
        f.write("// generated by tools/lift.py from " + os.path.basename(src) + "\n#pragma once\n")
        f.write("struct VfCpu { unsigned long " + ", ".join(R64) + ", rip, fl; };\n")
        f.write("static unsigned long vf_ld(unsigned long a) { return *(unsigned long *)a; }\nstatic void vf_st(unsigned long a, unsigned long v) { *(unsigned long *)a = v; }\n")
        f.write('static unsigned long vf_flags() { return (vf_nondet("flags", 12) & 0xcd5) | 0x202; }\n')
        f.write("static void vf_lifted(VfCpu &c)\n{\n" + "".join("    " + b + "\n" for b in body) + "}\n")
        f.write(f"""extern "C" {{ extern VfCpu vf_out; extern char vf_landing[]; void vf_native(VfCpu *); }}
asm(R"(.data
.balign 16
.globl vf_out
vf_out: .zero 144
vf_hostsp: .quad 0
.text
vf_raw: .byte {",".join("0x" + b for b in raw)}
.globl vf_native
vf_native:
pushq %rbp
pushq %rbx
pushq %r12
pushq %r13
pushq %r14
pushq %r15
movq %rsp, vf_hostsp(%rip)
pushq 136(%rdi)
popfq
{load.replace(chr(92) + "n", chr(10))}movq 120(%rdi), %rsp
movq 64(%rdi), %rdi
jmp vf_raw
.globl vf_landing
vf_landing:
{save.replace(chr(92) + "n", chr(10))}movq vf_hostsp(%rip), %rsp
pushfq
popq 136+vf_out(%rip)
popq %r15
popq %r14
popq %r13
popq %r12
popq %rbx
popq %rbp
cld
retq
)");
// natively the real machine code runs; it must arrive at vf_landing
static void vf_cpu_run(VfCpu &c)
{{
    if (vf_symbolic_engine()) {{ vf_lifted(c); return; }}
    vf_native(&c);
    c = vf_out;
    c.rip = (unsigned long)vf_landing;
}}
// any return address; natively it has to be the landing pad
static unsigned long vf_target(const char *name)
{{
    unsigned long v = vf_nondet(name, 64);
    return vf_symbolic_engine() ? v : (unsigned long)vf_landing;
}}
""")


main()
