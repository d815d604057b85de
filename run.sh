#!/bin/bash
# bash run.sh PROPERTY TIER [--replay FILE] [--sub NAME]: builds the harness against /repo's
# working tree and runs one property's check with a private PostgreSQL server.
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export PATH="$HOME/.cargo/bin:/root/.cargo/bin:$PATH"
export BH_ROOT=$ROOT
export CARGO_TARGET_DIR="$ROOT/harness/target"
LOG=$(mktemp /tmp/bh-build.XXXXXX)
if ! (cd harness && cargo build --offline --locked --quiet) > "$LOG" 2>&1; then
  tail -60 "$LOG" >&2
  rm -f "$LOG"
  echo "harness does not build" >&2
  exit 2
fi
rm -f "$LOG"
[ "$1" = build ] && exit 0
PGBIN=$(ls -d /usr/lib/postgresql/*/bin | sort -V | tail -1)
TMP=$(mktemp -d /tmp/bh.XXXXXX)
mkdir "$TMP/pg" "$TMP/scratch"
chmod 755 "$TMP"
chown postgres: "$TMP/pg"
as_pg() { (cd "$TMP/pg" && setpriv --reuid postgres --regid postgres --clear-groups env HOME="$TMP/pg" LC_ALL=C "$@"); }
stop_pg() {
  as_pg "$PGBIN/pg_ctl" -D "$TMP/pg/data" -m immediate -w stop > /dev/null 2>&1
  case "$TMP" in /tmp/bh.*) rm -rf "$TMP" ;; esac
}
trap stop_pg EXIT
trap 'exit 2' INT TERM
as_pg "$PGBIN/initdb" -D "$TMP/pg/data" -U postgres -E UTF8 --locale=C -A trust --nosync > /dev/null 2>&1
as_pg "$PGBIN/pg_ctl" -D "$TMP/pg/data" -l "$TMP/pg/log" -w -t 60 \
  -o "-k $TMP/pg -h '' -c max_connections=400 -c fsync=off -c synchronous_commit=off -c full_page_writes=off -c max_locks_per_transaction=256 -c autovacuum=off" start > /dev/null 2>&1 \
  || { cat "$TMP/pg/log" >&2; exit 2; }
export BH_PG="host=$TMP/pg user=postgres" BH_SCRATCH="$TMP/scratch"
"$ROOT/harness/target/debug/bharness" "$@"
rc=$?
case $rc in
  132 | 134 | 135 | 136 | 139)
    # The code under test died of a signal: find the case that does it.
    mkdir -p "$ROOT/replays" "$TMP/cases"
    mv "$TMP"/scratch/running-*.json "$TMP/cases/"
    pick=
    for f in $(ls -t "$TMP"/cases/*.json); do
      [ -n "$pick" ] || pick=$f
      for _ in 1 2 3; do
        "$ROOT/harness/target/debug/bharness" "$1" quick --replay "$f" > /dev/null 2>&1
        if [ $? -ge 128 ]; then pick=$f; break 2; fi
      done
    done
    out="$ROOT/replays/$1-crash-$(md5sum < "$pick" | cut -c1-8).json"
    cp "$pick" "$out"
    echo "--- $1: crash: the process died of signal $((rc - 128)); case: $(head -c 2000 "$pick")"
    echo "VIOLATION property=$1 replay=$out"
    exit 1
    ;;
esac
exit $rc
