#!/bin/bash
# build.sh WORKDIR DEMO.cc [flags]: the allocator of the tree in the current
# directory, natively, with the demonstration as its main program.
set -e
w=$1; demo=$2; shift 2
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$w"
F="-std=c++17 -O1 -DNDEBUG -DTCMALLOC_INTERNAL_METHODS_ONLY -D_GLIBCXX_EXTERN_TEMPLATE=0 -D__restrict__= -D__restrict= -w -fno-exceptions -I$here/shim -I$PWD $*"
case "$*" in *PAGES*) ;; *) F="$F -DTCMALLOC_INTERNAL_8K_PAGES" ;; esac
{ ls tcmalloc/*.cc tcmalloc/internal/*.cc | grep -E -v '_test|_fuzz|benchmark|mock|background|want_|profile_marsh|profile_builder|enable_heap|alloc_at_least|segv_handler|malloc_tracing_ext|deallocation_prof|_main'
  echo "$here/rt.cc"; echo "$demo"; echo tcmalloc/internal/percpu_rseq_asm.S; } > "$w/srcs"
xargs -P 8 -I{} sh -c "clang++-18 $F -c {} -o $w/\$(echo {} | tr / _).o" < "$w/srcs"
clang++-18 "$w"/*.o -Wl,--start-group $(ls /usr/lib/x86_64-linux-gnu/libabsl_*.a | grep -v -e test -e flags) -Wl,--end-group -lpthread -o "$w/demo"
