#!/bin/bash
# check.sh ID      build the simulator from /repo's working tree and decide property ID
# check.sh replay FILE
# check.sh build   build only
# Exit 0: held on everything explored; 1: violation (VIOLATION line); 2: no answer.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
cd "$here/sim" || exit 2
export CARGO_NET_OFFLINE=true
export VSIM_VERIF="$here"
exec 9>"$here/sim/.lock"
flock 9
log=$(mktemp)
trap 'rm -f "$log"' EXIT
build() { # target dir, rustflags
  CARGO_TARGET_DIR="$here/sim/$1" RUSTFLAGS="$2" cargo build --release --offline --locked >"$log" 2>&1
}
if build target "--cfg verif_sim"; then
  bin="$here/sim/target/release/vsim"
elif build target-nohook ""; then
  # The guarded hook no longer compiles against this tree: everything but the counter
  # warp of C09 works without it.
  echo "note: built without the verif_sim hook"
  bin="$here/sim/target-nohook/release/vsim"
else
  cat "$log" >&2
  echo "internal error: the simulator does not build against this tree" >&2
  exit 2
fi
flock -u 9
exec 9>&-
case "$1" in
  build) exit 0 ;;
  replay) "$bin" replay "$2" ;;
  *) "$bin" check "$1" ;;
esac
