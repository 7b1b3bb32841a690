# C24: the single-file distribution behaves exactly like the separate sources.
# Sourced by check.sh. Builds the library in both forms, links the exploration of
# several other checks with each, records the outcome of every case of every space
# in both, and compares the two records case by case.
comps="c03 c05 c06 c08 c09 c10 c11 c13 c14 c15 c16 c17 c18 c19 c20 c21 c25"
[ "$tier" = thorough ] && comps="c01 c02 c12 $comps"
am="$b/am"
mkdir -p "$am" "$b/sep" "$b/sin" "$b/h" || exit 2
for d in src tools tests examples LICENSE README.md; do cp -r "$repo/$d" "$am/" 2>/dev/null; done
vio() { # message
    mkdir -p "$here/evidence/replay"
    r="$here/evidence/replay/C24-build.txt"
    { echo "property: C24"; echo "observed: $1"; cat "$b/log" 2>/dev/null; } > "$r"
    python3 "$here/harness/c24.py" buildfail "$tier" "$here/evidence" "$1"
    echo "observed: $1"
    echo "VIOLATION property=C24 replay=$r"
    [ -z "$VF_KEEP" ] && find "$b" -mindepth 1 -delete
    exit 1
}
pids=(); n=0
for f in "$repo"/src/*.c; do gcc $libflags -I"$repo/src" -c "$f" -o "$b/sep/$(basename "$f" .c).o" & pids+=($!); done
for c in $comps; do
    # one compilation for both forms: the harness only sees the public headers
    g++ $hflags -I"$repo/src" -I"$here/harness" -c "$here/harness/$c.cpp" -o "$b/h/$c.o" & pids+=($!)
done
( cd "$am/tools" && bash ./build dist ) > "$b/log" 2>&1
for p in "${pids[@]}"; do wait $p || n=1; done
[ $n = 0 ] || { echo "check.sh: compilation failed" >&2; exit 2; }
[ -f "$am/dist/argtable3.c" ] && [ -f "$am/dist/argtable3.h" ] || vio "tools/build dist does not make the single-file distribution"
gcc $libflags -I"$am/dist" -c "$am/dist/argtable3.c" -o "$b/sin/argtable3.o" > "$b/log" 2>&1 || vio "the single-file distribution does not compile"
pids=(); n=0
for c in $comps; do
    g++ $san "$b/h/$c.o" "$b"/sep/*.o -lm -o "$b/h/$c.sep" & pids+=($!)
    g++ $san "$b/h/$c.o" "$b"/sin/*.o -lm -o "$b/h/$c.sin" >> "$b/log" 2>&1 || vio "the single-file distribution does not link with a program that links with the library ($c)"
done
for p in "${pids[@]}"; do wait $p || n=1; done
[ $n = 0 ] || { echo "check.sh: linking failed" >&2; exit 2; }
export ASAN_OPTIONS="detect_leaks=0:exitcode=77:malloc_context_size=3:quarantine_size_mb=4:thread_local_quarantine_size_kb=64:allocator_may_return_null=1:detect_stack_use_after_return=0"
export UBSAN_OPTIONS="print_stacktrace=1:exitcode=78"
export VF_EVIDENCE="$b" LC_ALL=C TZ=UTC
unset POSIXLY_CORRECT EF_DUMPCORE
python3 "$here/harness/c24.py" compare "$tier" "$here/evidence" "$b" $comps
rc=$?
[ -z "$VF_KEEP" ] && find "$b" -mindepth 1 -delete
exit $rc
