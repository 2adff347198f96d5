#!/bin/bash
# Copies the sources of both programs from /repo's working tree and makes their entry points
# callable. Nothing else is changed. Files are only touched if they differ (incremental builds).
set -e
cd "$(dirname "$0")"
sync_dir() { # from to appendix
  local tmp; tmp=$(mktemp -d)
  cp -r "$1"/. "$tmp"/
  printf '%s\n' "$3" >> "$tmp/main.rs"
  mkdir -p "$2"
  (cd "$tmp" && find . -type f) | while read -r f; do
    if ! cmp -s "$tmp/$f" "$2/$f"; then mkdir -p "$2/$(dirname "$f")"; cp "$tmp/$f" "$2/$f"; fi
  done
  (cd "$2" && find . -type f) | while read -r f; do
    [ -e "$tmp/$f" ] || rm -f "$PWD/$2/$f"
  done
  rm -rf "$tmp"
}
sync_dir /repo/ginko_ls/src ls_sut/gen '
pub fn __sim_main() {
    let _ = main();
}'
# only the binary of the command line tool (main.rs and modules that belong to it)
tmp=$(mktemp -d)
cp /repo/ginko/src/main.rs "$tmp"/main.rs
find /repo/ginko/src -mindepth 1 -maxdepth 1 ! -name dts ! -name lib.rs ! -name main.rs -exec cp -r {} "$tmp"/ \;
sync_dir "$tmp" cli_sut/gen '
pub fn __sim_main() -> std::process::ExitCode {
    std::process::Termination::report(main())
}'
rm -rf "$tmp"
