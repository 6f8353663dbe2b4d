#!/bin/bash
# Nothing is kept between runs: this only confirms that the tools the checks need are present.
set -e
cd "$(dirname "$0")/.."
command -v cargo >/dev/null; cargo kani --version; verus --version | head -2; python3 --version
mkdir -p evidence replays .work
