cd /verif/vx && CARGO_TARGET_DIR=/verif/.build/vx cargo build --release --offline 2>&1 | grep -E "^error" -A9 | head -60
