#!/bin/bash
# usage: build.sh sym|nat|mock   (rebuilds from /repo's current tree; prints the path of the result)
set -e
cd "$(dirname "$0")/$1"
# the command line tool as a library: its source as it is, and a way to its main()
mkdir -p ../cli/src
{ cat /repo/src/bin/index.rs; printf '\n%s\n' 'pub fn verif_main() -> i32 { let c = std::process::Termination::report(main()); if c == std::process::ExitCode::SUCCESS { 0 } else { 1 } }'; } > ../cli/src/lib.rs.$$
if cmp -s ../cli/src/lib.rs.$$ ../cli/src/lib.rs; then rm -f "$PWD/../cli/src/lib.rs.$$"; else mv ../cli/src/lib.rs.$$ ../cli/src/lib.rs; fi
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg dir_signature_verif"
if [ "$1" = sym ]; then
  if ! ls target/release/deps/hsym-*.ll >/dev/null 2>&1; then touch ../src/main.rs; fi
  cargo rustc --quiet --release --offline --bin hsym -- --emit=llvm-ir -C link-args=-Wl,--unresolved-symbols=ignore-all -C no-vectorize-loops -C no-vectorize-slp >build.log 2>&1 || { cat build.log >&2; exit 1; }
  ls -t "$PWD"/target/release/deps/hsym-*.ll | head -1
else
  # nat: replay with the real hash functions; mock: replay with the stand-ins of the symbolic run
  b=hnat; [ "$1" = mock ] && b=hmock
  cargo build --quiet --release --offline --bin $b >build.log 2>&1 || { cat build.log >&2; exit 1; }
  echo "$PWD/target/release/$b"
fi
