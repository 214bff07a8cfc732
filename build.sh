# Sourced by check.sh and setup.sh: builds the harness (and the CLI where needed) from /repo.
here=${here:-/verif}
. /opt/vp/env.sh
export CARGO_INCREMENTAL=0 VMC_DIR=$here CARGO_TARGET_DIR=$here/target
unset RUSTFLAGS
vmc_log=$here/target/build.log
mkdir -p "$here/target"
# The hooks are used when they compile; without them the harness still decides everything but the
# hook driven families (the evidence says which).
if (cd "$here/harness" && RUSTFLAGS="--cfg varisat_verif" cargo build --release --offline) >"$vmc_log" 2>&1; then
    VMC=$here/target/release/vmc
elif (cd "$here/harness" && cargo build --release --offline --target-dir "$here/target/plain") >>"$vmc_log" 2>&1; then
    VMC=$here/target/plain/release/vmc
    echo "note: built without hooks"
else
    grep -A12 "^error" "$vmc_log" | head -60
    echo "cannot build the harness"
    return 1
fi
export VMC
case " $1 " in
" C20 " | " C21 " | " C22 " | " all ")
    if ! (cd /repo && cargo build --offline --locked -p varisat-cli --target-dir "$here/target/cli") >"$vmc_log" 2>&1; then
        grep -A12 "^error" "$vmc_log" | head -60
        echo "cannot build the command line tool"
        return 1
    fi
    export VMC_CLI=$here/target/cli/debug/varisat
    ;;
esac
case " $1 " in
" C28 ")
    export VMC_CASE_LIMIT=${VMC_CASE_LIMIT:-800}
    if ! "$here/miri/run.sh" >"$vmc_log" 2>&1; then
        grep -A12 "^error" "$vmc_log" | head -60
        echo "cannot run the Miri interpreter"
        return 1
    fi
    ;;
esac
return 0
