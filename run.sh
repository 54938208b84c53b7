#!/bin/bash
# run.sh ID [quick|thorough] : rebuild the harness from /repo's working tree, run one check.
root="$(cd "$(dirname "$0")" && pwd)"; cd "$root/harness" || exit 2
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR
if ! cargo build --offline --locked >/tmp/vmon-build.$$.log 2>&1; then
  tail -40 /tmp/vmon-build.$$.log >&2; /bin/rm -f /tmp/vmon-build.$$.log
  echo "build failed" >&2; exit 2
fi
/bin/rm -f /tmp/vmon-build.$$.log
exec env VMON_ROOT="$root" ./target/debug/vmon check "$@"
