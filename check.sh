#!/bin/bash
# check.sh <property> <quick|thorough> [harness arguments]
# Builds the library from /repo's current tree (instrumented) and the property's
# harness, and runs the exploration. Exit 0: held; 1: violation; 2: could not run.
here=$(cd "$(dirname "$0")" && pwd)
id=$1
tier=${2:-quick}
shift 2
repo=${VF_REPO:-/repo}
b=${VF_BUILD:-$here/.build}/$id-$tier
mkdir -p "$b" "$here/evidence" || exit 2
find "$b" -mindepth 1 -delete
name=$(echo "$id" | tr A-Z a-z)
san="-fsanitize=address,undefined -fno-sanitize=nonnull-attribute -fno-sanitize-recover=all -fno-omit-frame-pointer"
libflags="-std=gnu99 -D_XOPEN_SOURCE=700 -O1 -g -w -ftrivial-auto-var-init=pattern $san"
hflags="-std=c++17 -O1 -g -Wall -Wextra -Wno-unused-parameter -Wno-missing-field-initializers $san"
ldflags=""
[ -f "$here/harness/$name.flags" ] && . "$here/harness/$name.flags"
[ -f "$here/harness/$name.sh" ] && { . "$here/harness/$name.sh"; exit $?; }
libs=("$repo"/src/*.c)
n=0
pids=()
for f in "${libs[@]}"; do
    gcc $libflags -I"$repo/src" -c "$f" -o "$b/$(basename "$f" .c).lib.o" & pids+=($!)
done
g++ $hflags -I"$repo/src" -I"$here/harness" -c "$here/harness/$name.cpp" -o "$b/harness.o" & pids+=($!)
for p in "${pids[@]}"; do wait $p || n=1; done
[ $n = 0 ] || { echo "check.sh: compilation failed" >&2; exit 2; }
if [ -n "$VF_PREP" ]; then . "$here/harness/$VF_PREP" || exit 2; fi
g++ $san $ldflags "$b/harness.o" "$b"/*.lib.o -lm -o "$b/run" || exit 2
export ASAN_OPTIONS="detect_leaks=0:exitcode=77:malloc_context_size=3:quarantine_size_mb=4:thread_local_quarantine_size_kb=64:allocator_may_return_null=1:max_malloc_fill_size=65536:detect_stack_use_after_return=0:${VF_ASAN}"
export UBSAN_OPTIONS="print_stacktrace=1:exitcode=78"
export VF_EVIDENCE="$here/evidence" LC_ALL=C TZ=UTC
unset POSIXLY_CORRECT EF_DUMPCORE
"$b/run" "$tier" "$@"
rc=$?
[ -z "$VF_KEEP" ] && find "$b" -mindepth 1 -delete
exit $rc
