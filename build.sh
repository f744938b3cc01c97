# Sourced by run.sh and setup.sh: builds the harness (and with it the crate in /repo) if the
# sources differ from those of the last build.
here="${here:-$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)}"
# compile PROFILE [cargo options]
compile() {
  local prof="$1" h="$here/harness" log="$here/harness/target/build.$1.log"; shift
  ( cd "$h" && cargo clean -p la -p la-pbt --profile "$prof" --offline "$@" ) >/dev/null 2>&1
  if ! ( cd "$h" && cargo build --profile "$prof" --offline --locked "$@" ) >"$log" 2>&1; then
    # The matrix literals of C25 are compiled into the harness.  If only they fail to compile, the
    # other properties are still decided, and C25 reports that m! rejects a literal.
    if ! ( cd "$h" && cargo build --profile "$prof" --offline --locked --no-default-features "$@" ) >"$log.2" 2>&1; then
      grep -E '^error' -A8 "$log.2" | head -60 >&2
      return 1
    fi
  fi
}
build_harness() {
  local h="$here/harness" stamp="$here/harness/target/stamp" want
  mkdir -p "$h/target" "$here/evidence" "$here/replays"
  exec 9>"$h/target/lock"
  flock 9
  want="$( { find /repo -path /repo/target -prune -o -path /repo/.git -prune -o -type f \( -name '*.rs' -o -name Cargo.toml \) -print0; find "$h/src" "$h/Cargo.toml" "$h/Cargo.lock" -type f -print0; } | sort -z | xargs -0 sha256sum | sha256sum)"
  if [ -x "$h/target/release/la-pbt" ] && [ -x "$h/target/p/plain/la-pbt" ] && [ "$(cat "$stamp" 2>/dev/null)" = "$want" ]; then
    flock -u 9; exec 9>&-; return 0
  fi
  # never trust file times: the crate under test is compiled again whenever its text differs.
  # Two builds: with overflow checks and debug assertions (release), and without (plain).
  rm -f "$h/target/release/la-pbt" "$h/target/p/plain/la-pbt"
  compile plain --target-dir "$h/target/p" & local other=$!
  compile release; local a=$?
  wait $other; local b=$?
  if [ $a != 0 ] || [ $b != 0 ]; then
    echo "error: the harness does not build against /repo: no verdict" >&2
    flock -u 9; exec 9>&-; return 1
  fi
  echo "$want" >"$stamp"
  flock -u 9; exec 9>&-
}
build_harness
