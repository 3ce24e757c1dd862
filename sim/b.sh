. /opt/vp/env.sh; cd /verif/sim; cargo build --release --offline 2>&1 | grep -E "^error" -A8 | head -60
