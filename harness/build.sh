#!/bin/bash
# build.sh CRATE OUT: builds the harness crate, leaving OUT/<crate> (native)
# and OUT/<crate>.ll (all of it: the crate, what it depends on, and std)
set -e
C=$1; OUT=$2; H=$(cd "$(dirname "$0")" && pwd)
mkdir -p $OUT
gcc -O1 -Wall -c $H/shim.c -o $OUT/shim.o
cd $H/$C
export RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR=$OUT/target CARGO_NET_OFFLINE=true
export RUSTFLAGS="-Awarnings -Cembed-bitcode=yes -Cno-vectorize-loops -Cno-vectorize-slp"
D=$OUT/target/release/deps
rm -f $D/p$C-*
cargo rustc --offline --release -q -- --emit=llvm-bc,link -C save-temps -C link-arg=$OUT/shim.o --print link-args >$OUT/link
B=$(ls -d ~/.rustup/toolchains/stable-*/lib/rustlib/*/bin | head -1)
# the bitcode of the libraries is in a section of their objects
rm -rf $OUT/bc; mkdir $OUT/bc
for r in $(tr ' ' '\n' <$OUT/link | tr -d '"' | grep '\.rlib$' | grep -v compiler_builtins | sort -u); do
  (mkdir $OUT/bc/$(basename $r .rlib); cd $OUT/bc/$(basename $r .rlib); $B/llvm-ar x $r
   for o in *.o; do [ ! -f $o ] || $B/llvm-objcopy --dump-section=.llvmbc=$o.bc $o /dev/null 2>/dev/null || true; rm -f $o; done) &
done
wait
$B/llvm-link $(ls $D/p$C-*.rcgu.bc | grep -v no-opt) $(find $OUT/bc -name '*.bc' | sort) -o $OUT/all.bc
$B/opt -passes='internalize,globaldce,cgscc(inline,function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>)),globaldce' -internalize-public-api-list=main $OUT/all.bc -o $OUT/$C.bc
$B/llvm-dis $OUT/$C.bc -o $OUT/$C.ll
rm -rf $OUT/bc $OUT/all.bc $OUT/$C.bc
cp $OUT/target/release/p$C $OUT/$C
