# Building the code under test and the checks. Sourced by check and setup.sh, in /verif.

# Cargo decides by modification times; a tree restored with old times must be rebuilt all the same.
# So the sources' contents are hashed, and a changed hash forgets what was built of them.
src_hash() {
  (cd /repo && find . \( -name target -o -name .git -o -name node_modules \) -prune -o -type f \
     \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
}
fresh() { # target-dir manifest packages...
  local dir=$1 man=$2; shift 2
  mkdir -p "$dir"
  if [ "$(cat "$dir/.src" 2>/dev/null)" != "$HASH" ]; then
    if [ -d "$dir/debug" ] || [ -d "$dir/release" ]; then
      local p args=()
      for p in "$@"; do args+=(-p "$p"); done
      [ ! -d "$dir/release" ] || args+=(--release)
      cargo clean --offline -q --manifest-path "$man" --target-dir "$dir" "${args[@]}" 2>/dev/null || true
    fi
    echo "$HASH" > "$dir/.src"
  fi
}
quiet() { # run a build; show its output only if it fails
  local log; log=$(mktemp) || return 1
  "$@" >"$log" 2>&1; local rc=$?
  [ $rc = 0 ] || tail -60 "$log" >&2
  rm -f "$log"; return $rc
}
build_cli() {
  fresh "$PWD/target/repo" /repo/Cargo.toml xdvdfs xdvdfs-cli xdvdfs-fsd
  quiet env CARGO_PROFILE_DEV_OPT_LEVEL=1 cargo build --offline --locked --manifest-path /repo/Cargo.toml "$@" --target-dir "$PWD/target/repo"
}
build_cli_sync() {
  fresh "$PWD/target/reposync" /repo/Cargo.toml xdvdfs xdvdfs-cli
  quiet env CARGO_PROFILE_DEV_OPT_LEVEL=1 cargo build --offline --locked --manifest-path /repo/Cargo.toml -p xdvdfs-cli --features sync --target-dir "$PWD/target/reposync"
}
build_desktop() {
  fresh "$PWD/target/d" desktop/Cargo.toml xdvdfs xdvdfs-desktop
  quiet cargo build --offline --locked --manifest-path desktop/Cargo.toml --target-dir "$PWD/target/d"
}
build_web() {
  local f=$1; shift
  fresh "$PWD/target/$f" web/Cargo.toml xdvdfs xdvdfs-web
  quiet cargo build --offline --locked --manifest-path web/Cargo.toml --target-dir "$PWD/target/$f" "$@"
}
build_bin() {
  fresh "$PWD/target/h" harness/Cargo.toml xdvdfs xv
  quiet cargo build --offline --manifest-path harness/Cargo.toml --target-dir "$PWD/target/h" "$@"
}
build_sync() {
  fresh "$PWD/target/hs" harness/Cargo.toml xdvdfs xv
  quiet cargo build --offline --manifest-path harness/Cargo.toml --features sync --target-dir "$PWD/target/hs" "$@"
}
build_release() {
  fresh "$PWD/target/hr" harness/Cargo.toml xdvdfs xv
  quiet cargo build --release --offline --manifest-path harness/Cargo.toml --target-dir "$PWD/target/hr" "$@"
}
build_cli_release() {
  fresh "$PWD/target/reporel" /repo/Cargo.toml xdvdfs xdvdfs-cli
  quiet env CARGO_PROFILE_RELEASE_LTO=off CARGO_PROFILE_RELEASE_CODEGEN_UNITS=16 cargo build --release --offline --locked --manifest-path /repo/Cargo.toml -p xdvdfs-cli --target-dir "$PWD/target/reporel"
}
build_nostd() {
  fresh "$PWD/target/n" nostd/Cargo.toml xdvdfs xv-nostd
  quiet cargo build --offline --manifest-path nostd/Cargo.toml --target-dir "$PWD/target/n"
}
build_for() {
  HASH=$(src_hash)
  local bin; bin=$(echo "$1" | tr C c)
  case $1 in
    C14) build_desktop && build_cli -p xdvdfs-cli && build_cli -p xdvdfs-fsd && build_bin --bin "$bin" ;;
    C09|C18|C28) build_cli -p xdvdfs-cli && build_cli -p xdvdfs-fsd && build_bin --bin "$bin" ;;
    C20) build_cli_sync && build_cli -p xdvdfs-cli && build_bin --bin "$bin" --bin worker && build_sync --bin worker ;;
    C01|C05|C06|C10|C11|C13|C19|C21|C26) build_desktop && build_cli -p xdvdfs-cli && build_bin --bin "$bin" ;;
    C27) build_web w && build_web wt --features tauri && build_desktop && build_bin --bin "$bin" ;;
    C30) build_cli_release && build_cli -p xdvdfs-cli && build_nostd && build_release --bin worker && build_bin --bin "$bin" --bin worker ;;
    *) build_cli -p xdvdfs-cli && build_bin --bin "$bin" ;;
  esac
}
