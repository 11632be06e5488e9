. /opt/vp/env.sh
export CARGO_TARGET_DIR=/verif/harness/target
export CARGO_INCREMENTAL=0
