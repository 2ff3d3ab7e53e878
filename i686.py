"""Links programs for 32-bit Linux with what is installed: the 32-bit libraries without their development files."""
import os, shutil, stat, subprocess

TARGET = "i686-unknown-linux-gnu"

START = """
    .section .note.GNU-stack,"",@progbits
    .text
    .globl _start
    .type _start,@function
_start:
    xorl %ebp,%ebp
    popl %esi
    movl %esp,%ecx
    andl $-16,%esp
    pushl %eax
    pushl %esp
    pushl %edx
    pushl $0
    pushl $0
    pushl %ecx
    pushl %esi
    pushl $main
    call __libc_start_main
    hlt
"""

LD = """#!/bin/bash
# drops what only the gcc driver understands
args=()
for a in "$@"; do
  case "$a" in
    -m32|-nodefaultlibs|-pie|-no-pie|-static-pie|-fuse-ld=*|-B*) ;;
    -Wl,--as-needed|-Wl,-Bstatic|-Wl,-Bdynamic) ;;
    -Wl,*) IFS=, read -ra p <<< "${a#-Wl,}"; args+=("${p[@]}");;
    *) args+=("$a");;
  esac
done
d=$(cd "$(dirname "$0")" && pwd)
exec LINKER -m elf_i386 --dynamic-linker /lib/ld-linux.so.2 -L "$d/lib" -L /usr/lib32 "$d/crt1.o" "${args[@]}" -lgcc_s -lc
"""

LIBS = {"libc.so": "libc.so.6", "libm.so": "libm.so.6", "libdl.so": "libdl.so.2", "librt.so": "librt.so.1",
        "libpthread.so": "libpthread.so.0", "libutil.so": "libutil.so.1", "libgcc_s.so": "libgcc_s.so.1",
        "ld-linux.so.2": "ld-linux.so.2"}


def linker():
    for name in ("/usr/bin/ld.lld-18", "/usr/bin/ld.lld"):
        if os.path.exists(name):
            return name
    p = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True).stdout.strip()
    return p + "/lib/rustlib/x86_64-unknown-linux-gnu/bin/rust-lld -flavor gnu"


def prepare(dir):
    os.makedirs(os.path.join(dir, "lib"), exist_ok=True)
    for name, real in LIBS.items():
        link = os.path.join(dir, "lib", name)
        if not os.path.lexists(link):
            os.symlink("/usr/lib32/" + real, link)
    with open(os.path.join(dir, "crt1.S"), "w") as f:
        f.write(START)
    subprocess.run(["clang", "-m32", "-c", "-o", os.path.join(dir, "crt1.o"), os.path.join(dir, "crt1.S")], check=True)
    ld = os.path.join(dir, "ld.sh")
    with open(ld, "w") as f:
        f.write(LD.replace("LINKER", linker()))
    os.chmod(ld, 0o755)
    return {"CARGO_TARGET_I686_UNKNOWN_LINUX_GNU_LINKER": ld}, "-Crelocation-model=static"
