cd /verif/sim; for p in ${1//,/ }; do echo "== $p"; ./target/release/rsim survey $p ${2:-500} 2>&1 | grep -vE "^    [a-z]" | sort -rn | cut -c1-${4:-180} | head -${3:-20}; done
