#!/bin/sh
set -e
cd "$(dirname "$0")/../irv"
cargo build --release --offline
