# Toolchain of /opt/vp/env.sh, with a target directory of our own (nothing is written in /opt/vp).
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.70.0
PINNED=/root/.rustup/toolchains/nightly-2023-02-17-x86_64-unknown-linux-gnu/bin
export RUSTC=$PINNED/rustc RUSTDOC=$PINNED/rustdoc
export RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
# Hooks (--cfg verif_hooks in /repo) are on; NOHOOKS=1 is the fallback of tools/build.sh for a
# tree whose guarded code no longer compiles (guarded code is not seen by an ordinary build).
if [ -n "$NOHOOKS" ]; then
  export CARGO_TARGET_DIR=/verif/target/nohooks RUSTFLAGS=
else
  export CARGO_TARGET_DIR=/verif/target RUSTFLAGS="--cfg verif_hooks"
fi
unset RUST_BACKTRACE CARGO_PROFILE_DEV_OPT_LEVEL CARGO_PROFILE_DEV_DEBUG
