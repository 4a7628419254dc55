#!/bin/bash
# builds the monitors once; every check rebuilds what /repo's tree changes
cd "$(dirname "$0")/harness" && cargo build --release --offline && ./target/release/satmon selftest
