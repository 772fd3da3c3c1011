#!/bin/bash
# usage: check.sh ID [quick|thorough]   builds the model checker against /repo and runs one property
set -u
ID=$1
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD VERIF_TIER=${2:-${VERIF_TIER:-quick}} RUSTUP_TOOLCHAIN=1.78.0
CRATE=mc
[ "$ID" = C04 ] && [ -d mc-sched ] && CRATES="mc mc-sched" || CRATES=mc
rm -f "evidence/$ID.json"
mkdir -p evidence replays
if [ "$ID" = C29 ]; then # TypeScript: nothing of Rust is involved
  node js/ts.js "$PWD" "$VERIF_TIER"
  rc=$?
  [ $rc -le 1 ] && exit $rc
  echo "ERROR property=$ID checker exited with $rc" >&2
  exit 3
fi
if [ "$ID" = C28 ] && ! ./wasm.sh >"replays/build-$ID.log" 2>&1; then
  tail -40 "replays/build-$ID.log" >&2
  echo "ERROR property=$ID cannot build the bindings" >&2
  exit 3
fi
for CRATE in $CRATES; do
  if ! (cd $CRATE && cargo build --offline -q) >"replays/build-$ID.log" 2>&1; then
    # the stand-ins may lack something that changed code uses: the sequential part has passed already
    if [ $CRATE = mc-sched ]; then echo "NOTE property=$ID threads not explored: mc-sched does not build" >&2; exit 0; fi
    tail -40 "replays/build-$ID.log" >&2
    echo "ERROR property=$ID cannot build the checker" >&2
    exit 3
  fi
  (cd $CRATE && exec "./target/debug/$CRATE" "$ID")
  rc=$?
  case $rc in
    0) ;;
    1) exit 1 ;;
    134|139|138|136|132)
      # the code under test killed the process (stack overflow, abort)
      printf '{"property":"%s","key":"crash","detail":{"signal":%d,"reproduce":"%s/target/debug/%s %s"}}\n' "$ID" $((rc-128)) "$CRATE" "$CRATE" "$ID" >"replays/$ID-crash.json"
      printf '{"property":"%s","tier":"%s","seed":%s,"level":"model_checking","coverage":{"states":0,"transitions":0,"traces_validated_against_impl":0,"samples":["process died by signal %d"]},"wall_s":%d,"violations":1}\n' "$ID" "$VERIF_TIER" "${VERIF_SEED:-1}" $((rc-128)) $SECONDS >"evidence/$ID.json"
      echo "VIOLATION property=$ID replay=$PWD/replays/$ID-crash.json"
      exit 1 ;;
    *) echo "ERROR property=$ID checker exited with $rc" >&2; exit 3 ;;
  esac
done
exit 0
