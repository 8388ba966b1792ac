# builds the program of the current directory in a scratch directory; run ARGS..., lines LINES... set out (without colours) and rc
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)" || exit 3
trap 'rm -rf "$tmp"' EXIT
cp -r rs/src "$tmp/src"
cat > "$tmp/Cargo.toml" <<'TOML'
[package]
name = "latkerlo-jvotci"
version = "0.1.0"
edition = "2024"
autobins = false
[lib]
path = "src/lib.rs"
[[bin]]
name = "cli"
path = "src/main.rs"
[dependencies]
indexmap = "*"
itertools = "*"
regex = "*"
[workspace]
TOML
(cd "$tmp" && CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings timeout 280 cargo build --offline -q) || exit 2
run() {
  out="$(timeout 10 "$tmp/target/debug/cli" "$@" < /dev/null)"
  rc=$?
  out="$(printf '%s\n' "$out" | sed 's/\x1b\[[0-9]*m//g')"
}
lines() {
  out="$(printf '%s\n' "$@" | timeout 10 "$tmp/target/debug/cli")"
  rc=$?
  out="$(printf '%s\n' "$out" | sed 's/\x1b\[[0-9]*m//g')"
}
fail() {
  printf '%s\n' "rc $rc" "$out"
  exit 1
}
