#!/bin/bash
# build.sh PKG...: build harness packages against /repo's working tree. Cargo decides
# freshness by mtime; a content hash of /repo's sources guards against stale objects.
. /verif/env.sh
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.verif_lock"; flock 9
H=$(cd /repo && find . -path ./.git -prune -o -path ./target -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.S' -o -name '*.bf' -o -name '*.json' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
STAMP=$CARGO_TARGET_DIR/.repo_hash
cd /verif/harness || exit 2
if [ -d "$CARGO_TARGET_DIR/release" ] && [ "$(cat "$STAMP" 2>/dev/null)" != "$H" ]; then
  for p in halo2curves halo2curves_asm halo2_proofs poseidon halo2_gadgets ckb_bf_vm ckb_bf_base ckb_bf_prover ckb_bf_verifier verifier_host prover_bin; do
    cargo clean --release --offline -p $p >/dev/null 2>&1
  done
fi
echo "$H" > "$STAMP"
ARGS=(); for p in "$@"; do ARGS+=(-p "$p"); done
cargo build --release --offline --locked -q "${ARGS[@]}" 2> "$CARGO_TARGET_DIR/.build.log" && { rm -f "$CARGO_TARGET_DIR/.nohooks"; exit 0; }
tail -40 "$CARGO_TARGET_DIR/.build.log" >&2
[ -n "$NOHOOKS" ] && exit 2
echo "build with hooks failed; trying without" >&2
touch "$CARGO_TARGET_DIR/.nohooks"
NOHOOKS=1 exec "$0" "$@"
