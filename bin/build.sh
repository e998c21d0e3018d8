#!/bin/bash
# Builds /verif/build/boxsim: the simulator linked with boxes' sources from /repo's working tree.
# usage: build.sh [REPO] [BUILDDIR]
set -u
export LC_ALL=C
unset MAKEFLAGS CFLAGS LDFLAGS CXXFLAGS
VERIF=$(cd "$(dirname "$0")/.." && pwd)
REPO=${1:-/repo}
B=${2:-$VERIF/build}
mkdir -p "$B" || exit 2
exec 9>"$B/.lock"
flock 9
JOBS=$(nproc 2>/dev/null || echo 4)
CC=gcc
CXX=g++
SUTFLAGS="-O -g -w -U_FORTIFY_SOURCE -fno-builtin-printf -fno-builtin-fprintf -fcf-protection=none"
# ---- boxes
skey=$( (cd "$REPO" && find src -type f | sort | xargs sha1sum; sed -n 's/^\(GLOBALCONF\|BVERSION\)/&/p' "$REPO/Makefile"; echo "$SUTFLAGS $REPO"; sha1sum < "$VERIF/sim/symbols.txt"; sha1sum < "$0") 2>/dev/null | sha1sum | cut -c1-40)
if [ ! -f "$B/sut.o" ] || [ "$(cat "$B/sut.key" 2>/dev/null)" != "$skey" ]; then
    rm -rf "$B/sut" "$B/sut.o" "$B/sut.key" "$B/boxsim"
    mkdir -p "$B/sut"
    bv=$(sed -n 's/^BVERSION *= *//p' "$REPO/Makefile" | head -1)
    gc=$(sed -n 's/^GLOBALCONF *= *//p' "$REPO/Makefile" | head -1)
    [ -n "$bv" ] || bv=0
    [ -n "$gc" ] || gc=/usr/share/boxes
    sed -e "s/--BVERSION--/$bv/; s#--GLOBALCONF--#$gc#" "$REPO/src/boxes.in.h" > "$B/sut/boxes.h" || exit 2
    (cd "$B/sut" && flex --header-file=lex.yy.h "$REPO/src/lexer.l" && bison --defines=parser.h -o parser.c "$REPO/src/parser.y") > "$B/gen.log" 2>&1 || { cat "$B/gen.log" >&2; exit 2; }
    ( ls "$REPO"/src/*.c; ls "$B"/sut/*.c ) > "$B/sut/files"
    xargs -P "$JOBS" -I{} sh -c "$CC $SUTFLAGS -I$B/sut -I$REPO/src -c {} -o $B/sut/\$(basename {} .c).o" < "$B/sut/files" 2> "$B/cc.log" || { cat "$B/cc.log" >&2; exit 2; }
    for s in $(cat "$VERIF/sim/symbols.txt"); do
        t=$s
        case $s in
            stat64|lstat|lstat64) t=stat ;;
            fstat64) t=fstat ;;
            fstatat64) t=fstatat ;;
            fopen64) t=fopen ;;
            freopen64) t=freopen ;;
            open64) t=open ;;
            openat64) t=openat ;;
            creat64) t=creat ;;
            pread64) t=pread ;;
            lseek64) t=lseek ;;
            readdir64) t=readdir ;;
            eaccess|euidaccess) t=access ;;
            fdatasync) t=fsync ;;
            tmpfile64) t=tmpfile ;;
            mkstemp64) t=mkstemp ;;
            lchown) t=chown ;;
            utimes|lutimes) t=utime ;;
            secure_getenv) t=getenv ;;
            mkostemp) t=mkstemp ;;
            execl|execlp|execve) t=execv ;;
            posix_spawn|posix_spawnp) t=system ;;
            fileno_unlocked) t=fileno ;;
            fcntl64) t=fcntl ;;
            mmap64) t=mmap ;;
            vfork) t=fork ;;
        esac
        echo "$s sim_$s" >&3
        [ "$s" = "$t" ] || echo "-Wl,--defsym=sim_$s=sim_$t"
    done > "$B/aliases" 3> "$B/redef"
    echo "main boxes_main" >> "$B/redef"
    ld -r -o "$B/sut.tmp.o" "$B"/sut/*.o || exit 2
    objcopy --redefine-syms="$B/redef" --keep-global-symbol=boxes_main "$B/sut.tmp.o" "$B/sut.o" || exit 2
    rm -f "$B/sut.tmp.o"
    echo "$skey" > "$B/sut.key"
fi
# ---- simulator
for f in "$VERIF"/sim/*.cpp; do
    o=$B/sim.$(basename "$f" .cpp).o
    k=$(cat "$VERIF"/sim/*.h "$f" | sha1sum | cut -c1-40)
    if [ ! -f "$o" ] || [ "$(cat "$o.key" 2>/dev/null)" != "$k" ]; then
        rm -f "$o.key" "$B/boxsim"
        echo "$f $o $k"
    fi
done > "$B/todo"
if [ -s "$B/todo" ]; then
    xargs -P "$JOBS" -L1 sh -c "$CXX -std=c++17 -O1 -g -Wall -Wextra -U_FORTIFY_SOURCE -c \$0 -o \$1 && echo \$2 > \$1.key" < "$B/todo" 2> "$B/cxx.log" || { cat "$B/cxx.log" >&2; exit 2; }
    [ -s "$B/cxx.log" ] && [ -n "${VERBOSE:-}" ] && cat "$B/cxx.log" >&2
fi
if [ ! -x "$B/boxsim" ]; then
    $CXX -no-pie -rdynamic -o "$B/boxsim.tmp" "$B"/sim.*.o "$B/sut.o" $(cat "$B/aliases") -lunistring -lpcre2-32 -ldl 2> "$B/ld.log" || { cat "$B/ld.log" >&2; exit 2; }
    mv "$B/boxsim.tmp" "$B/boxsim"
fi
exit 0
