#!/bin/bash
# usage: check.sh ID [quick|thorough]         decide one property on /repo's working tree
#        check.sh ID --replay FILE             re-run the case a VIOLATION line points to
# exit 0 held, 1 violated (VIOLATION line), 2 no verdict
cd "$(dirname "$0")" || exit 2
here=$PWD
export SATMON_VERIF=$here
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$here/harness/target
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
# cargo decides by file times; judge the tree that is there now instead
rm -rf "$here"/harness/target/release/.fingerprint/satellite-*
log=$(mktemp)
if ! (cd harness && cargo build --release --offline) >"$log" 2>&1; then
    cat "$log"
    rm -f "$log"
    echo "no verdict: the harness does not build against /repo"
    exit 2
fi
if [ "$1" = C28 ] || { [ "$2" = --replay ] && grep -qs '^property=C28' "$3"; }; then
    rm -rf "$here"/digest/target/{debug,release}/.fingerprint/satellite-*
    for p in dev release; do
        if ! (cd digest && CARGO_TARGET_DIR=$here/digest/target cargo build --profile $p --offline) >"$log" 2>&1; then
            cat "$log"
            rm -f "$log"
            echo "no verdict: the $p build of the digest fails"
            exit 2
        fi
    done
fi
rm -f "$log"
bin=$here/harness/target/release/satmon
if [ "$2" = "--replay" ]; then
    exec "$bin" replay "$3"
fi
"$bin" check "$1" ${2:-${VERIF_TIER:-quick}}
rc=$?
if [ $rc = 0 ] && [ -f KNOWN_FINDINGS.txt ]; then
    grep "^known: property=$1 " KNOWN_FINDINGS.txt | sed 's/^known:/KNOWN-FINDING:/'
fi
exit $rc
