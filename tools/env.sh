# Common environment of setup and checks.
. /opt/vp/env.sh
export VERIF_ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
export RUSTFLAGS="--cfg dnssec_prover_mc -Aunexpected_cfgs"
export CARGO_TARGET_DIR="$VERIF_ROOT/target" CARGO_INCREMENTAL=0
