cd "$(dirname "$0")/../mc" && CARGO_TARGET_DIR=$PWD/../target CARGO_NET_OFFLINE=true cargo build --release --offline 2>&1 | grep -E "^error" -A14 | head -${1:-40}
