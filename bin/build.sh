#!/bin/bash
# build.sh OUT CONTRACT...   Builds the named contracts' wasm from /repo's working tree into OUT/<name>.wasm.
# Works on a scratch copy; touches neither /repo nor /opt/vp. Compiled dependencies are taken from the
# project's own build cache when it is there (they are the same crates, same flags), else built.
set -u
OUT=$1; shift
REPO=${REPO:-/repo}
export HOME=/root LANG=${LANG:-C.UTF-8}
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.70.0
TC=/root/.rustup/toolchains/1.69.0-x86_64-unknown-linux-gnu/bin
export RUSTC=$TC/rustc RUSTDOC=$TC/rustdoc RUSTC_WRAPPER= RUSTFLAGS=
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_PROFILE_DEV_DEBUG=1
export LIBCLANG_PATH=/usr/lib/llvm-14/lib CXXFLAGS="-include cstdint" RUST_BACKTRACE=0
WORK=$OUT/ws; T=$OUT/target
mkdir -p "$WORK" "$T/wasm32-unknown-unknown" || exit 2
rsync -rlptc --delete --exclude /.git --exclude target "$REPO/" "$WORK/" || exit 2
if [ ! -e "$T/.seeded" ]; then
  C=/opt/vp/target
  if [ -d $C/wasm32-unknown-unknown/release ] && [ -d $C/release ]; then
    cp -a --reflink=auto $C/wasm32-unknown-unknown/release "$T/wasm32-unknown-unknown/release" &
    cp -a --reflink=auto $C/release "$T/release" &
    wait
    cp -a $C/.rustc_info.json "$T/" 2>/dev/null
  fi
  touch "$T/.seeded"
fi
export CARGO_TARGET_DIR=$T
lib() { case $1 in lockup) echo lockup_contract;; voting) echo voting_contract;; *) echo ${1//-/_};; esac; }
prep() { # manifests with git dev-dependencies cannot be resolved offline
  case $1 in multisig|staking-pool|staking-pool-factory)
    sed -i -E '/^[A-Za-z0-9_-]+ *= *\{ *git *=/d' "$WORK/$1/Cargo.toml"; LOCK=;;
  *) LOCK=--locked;; esac; }
one() { # CONTRACT: build and copy to OUT (and to res/, where the factories embed it)
  local c=$1 n; n=$(lib $1); prep $c
  rm -f "$T/wasm32-unknown-unknown/release/$n.wasm"
  (cd "$WORK/$c" && RUSTFLAGS='-C link-arg=-s' CARGO_INCREMENTAL=0 \
     cargo build --target wasm32-unknown-unknown --release --offline $LOCK) >"$OUT/build-$c.log" 2>&1 || { echo "build of $c failed"; tail -40 "$OUT/build-$c.log"; return 1; }
  local f=$T/wasm32-unknown-unknown/release/$n.wasm
  [ -f "$f" ] || { echo "no wasm for $c"; return 1; }
  cp "$f" "$OUT/$c.wasm"
  mkdir -p "$WORK/$c/res"; cp "$f" "$WORK/$c/res/$n.wasm"
}
manip() { # NAME FLAGS...: one feature combination of state-manipulation
  local name=$1; shift
  rm -f "$T/wasm32-unknown-unknown/release/state_manipulation.wasm"
  (cd "$WORK/state-manipulation" && unset RUSTFLAGS && CARGO_INCREMENTAL=0 RUSTC_BOOTSTRAP=1 \
     cargo build --target wasm32-unknown-unknown --release --offline --locked "$@") >"$OUT/build-sm-$name.log" 2>&1 || { echo "build of state-manipulation ($name) failed"; tail -40 "$OUT/build-sm-$name.log"; return 1; }
  cp "$T/wasm32-unknown-unknown/release/state_manipulation.wasm" "$OUT/sm-$name.wasm"
}
done_=" "
need() { case "$done_" in *" $1 "*) return 0;; esac; done_="$done_$1 "; one $1 || exit 2; }
for c in "$@"; do
  case $c in
    staking-pool-factory) need staking-pool;;
    lockup-factory) need lockup;;
    multisig-factory) need multisig2;;
  esac
  if [ $c = state-manipulation ]; then manip all --all-features || exit 2; manip clean --no-default-features --features clean || exit 2; manip replace --no-default-features --features replace || exit 2
  else need $c; fi
done
