#!/bin/bash
# Builds the simulator against /repo's working tree and runs it: run.sh check C01 | replay FILE | ...
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
export CARGO_TARGET_DIR="$here/sim/target" RUSTC_WRAPPER="$here/sim/rustc-wrap.sh"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WORKSPACE_WRAPPER
mkdir -p "$CARGO_TARGET_DIR" "$here/evidence" "$here/replays"
exec 9>"$CARGO_TARGET_DIR/.lolsim-lock"
flock 9
# Cargo trusts time stamps; a tree that was swapped in may carry old ones, so contents decide.
sum="$(cd /repo && find . -path ./.git -prune -o -path ./target -prune -o -type f \( -name '*.rs' -o -name 'Cargo.*' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
if [ "$sum" != "$(cat "$CARGO_TARGET_DIR/.lolsim-sum" 2>/dev/null)" ]; then
  (cd "$here/sim" && for f in dev fine; do cargo clean -q --offline --profile $f -p lolcode_ast; cargo clean -q --offline --profile $f -p lolcode_ast_derive; done 2>/dev/null) || true
fi
profile=dev; dir=debug; prop="$2"
if [ "$1" = replay ] && [ -r "$2" ]; then prop="$(sed -n 's/^prop //p' "$2" | head -1)"; fi
case "$prop" in C01|C10|C11) profile=fine; dir=fine; export LOLSIM_FINE=1 ;; *) unset LOLSIM_FINE ;; esac
if ! (cd "$here/sim" && cargo build -q --offline --profile $profile) >"$CARGO_TARGET_DIR/build.log" 2>&1; then
  grep -A12 "^error" "$CARGO_TARGET_DIR/build.log" | head -60 >&2
  echo "run.sh: build failed" >&2
  exit 2
fi
echo "$sum" >"$CARGO_TARGET_DIR/.lolsim-sum"
# The executable is copied, so that a later build does not disturb this run.
bin="$(mktemp "$CARGO_TARGET_DIR/lolsim.XXXXXX")"
cp "$CARGO_TARGET_DIR/$dir/lolsim" "$bin"; chmod +x "$bin"
flock -u 9
exec 9>&-
"$bin" "$@"
rc=$?
/bin/rm -f -- "$bin"
exit $rc
