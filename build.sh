# sourced by run.sh and setup.sh: builds the monitors, and for the checks of the whole program also that
# program, from /repo's working tree into harness/target
# build_in DIR BIN [asan]: cargo trusts modification times; trust contents instead
build_in() {
  local repo=/repo here=$PWD h log=$PWD/harness/target/build-$2.log out=harness/target/debug dir=harness/target opts=
  [ -z "$3" ] || { dir=harness/target/asan opts="--target x86_64-unknown-linux-gnu" out=harness/target/asan/x86_64-unknown-linux-gnu/debug; }
  h=$( (cd $repo && find common account_storage accounts_on_demand token_account_storage simulate_from_snapshot/src Cargo.toml Cargo.lock -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' \) -print0 | sort -z | xargs -0 sha256sum;
        cd $here && find "$1" sim -path harness/target -prune -o -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
  if [ "$h" != "$(cat harness/target/.srchash-$2 2>/dev/null)" ] || [ ! -x $out/$2 ]; then
    rm -f harness/target/.srchash-$2
    (cd "$1" && {
       for p in $2 lite-account-manager-common lite-account-storage lite-accounts-on-demand lite-token-account-storage; do
         rm -rf "$here"/$out/.fingerprint/$p-*
       done
       [ -z "$3" ] || export RUSTC_BOOTSTRAP=1 RUSTFLAGS=-Zsanitizer=address
       cargo build --offline $opts --target-dir "$here/$dir"
     }) >"$log" 2>&1 </dev/null || { cp "$log" harness/target/build.log; return 1; }
    echo "$h" >harness/target/.srchash-$2
  fi
}
# build_monitor [sim] [asan]
build_monitor() {
  exec 9>harness/target/.lock && flock 9
  local rc=0 x
  build_in harness lam-monitor || rc=1
  for x in "$@"; do
    case $x in
      sim) build_in sim lam-sim || rc=1 ;;
      asan) build_in sim/asan lam-probe-asan asan || rc=1 ;;
    esac
  done
  exec 9>&-
  export SIM_BIN=$PWD/harness/target/debug/lam-sim
  export ASAN_BIN=$PWD/harness/target/asan/x86_64-unknown-linux-gnu/debug/lam-probe-asan
  MONITOR_BIN=$PWD/harness/target/debug/lam-monitor
  return $rc
}
