#!/bin/bash
# Builds the harness crate against /repo's working tree and produces
#   $W/vh      native replay binary       $W/vh.bc   optimised whole-program bitcode
set -e
cd /verif/harness
export RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR=${VP_TARGET:-/verif/work/target} CARGO_NET_OFFLINE=true
W=${VP_WORK:-/verif/work}
mkdir -p $W
rm -f $CARGO_TARGET_DIR/debug/deps/vh-*.bc
touch build.rs
rm -rf $CARGO_TARGET_DIR/debug/.fingerprint/swrs-*
cargo rustc --offline -q --bin vh -- -C save-temps -C codegen-units=1 1>&2
LB=$(ls -t $CARGO_TARGET_DIR/debug/deps/vh-*lto.input.bc | head -1)
B=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
API=$($CARGO_TARGET_DIR/debug/vh | paste -sd,)
$B/opt -passes='internalize,globaldce,function(sroa,instcombine<no-verify-fixpoint>,simplifycfg,early-cse),globaldce' --internalize-public-api-list=$API,vp_sym,vp_assume,vp_check,vp_reach,vp_observe,vp_file,vp_conc,vp_nfiles,vp_in_engine $LB -o $W/vh.bc.tmp
cp $CARGO_TARGET_DIR/debug/vh $W/vh
mv $W/vh.bc.tmp $W/vh.bc
rm -f $CARGO_TARGET_DIR/debug/deps/vh-*.bc $CARGO_TARGET_DIR/debug/deps/vh-*.o
