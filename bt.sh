. /opt/vp/env.sh; cd /verif/harness; cargo build --offline -p vcore 2>&1 | grep -E "^error" -A7 | head -50; time VERIF_ALL=1 /verif/target/debug/vcore $1 ${2:-quick} | tail -2 | cut -c1-300; python3 /verif/triage.py $1 ${3:-2}
