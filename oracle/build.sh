#!/bin/bash
# build.sh OUT [REPO]: compiles the library and the interception layer of REPO with the address sanitizer,
# with hooked allocation, and the layer's system calls replaced by stand-ins
set -e
here=$(cd "$(dirname "$0")" && pwd); out=$1; repo=${2:-/repo}
mkdir -p "$out"
alloc="malloc calloc realloc free strdup"
args=(); for s in $alloc dup close fopen fwrite fclose; do args+=(--redefine-sym $s=ora_$s); done
sargs=(); for s in $alloc; do sargs+=(--redefine-sym $s=ora_$s); done
for s in stat lstat fstat readlink opendir fdopendir closedir readdir telldir seekdir rewinddir dirfd scandir access open openat close read lseek pread readv chdir getcwd mkdir rmdir unlink nftw execv dlopen atexit setenv; do sargs+=(--redefine-sym $s=sys_$s); done
CF="-U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -g -O1 -w -fsanitize=address -fno-omit-frame-pointer -fno-builtin -I$repo/include -I$repo/src"
pids=()
for f in "$repo"/src/*.c; do
  ( gcc $CF -c "$f" -o "$out/$(basename "$f" .c).o" && objcopy "${args[@]}" "$out/$(basename "$f" .c).o" ) & pids+=($!)
done
( gcc $CF -I"$repo/sample" -c "$repo/sample/enclose_io_unix.c" -o "$out/enclose_io_unix.o" && objcopy "${sargs[@]}" "$out/enclose_io_unix.o" ) & pids+=($!)
g++ -std=gnu++17 -g -O1 -w -fpermissive -fsanitize=address -DORA_SAMPLE -I"$repo/include" -I"$repo/src" -I"$repo/sample" -c "$here/oracle.cpp" -o "$out/oracle_main.o" & pids+=($!)
for p in "${pids[@]}"; do wait $p; done
g++ -fsanitize=address "$out"/*.o -lz -ldl -o "$out/oracle"
