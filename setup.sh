#!/bin/bash
# Builds every variant once, so that the first check starts from a warm cache.
# Each check rebuilds what it needs by itself if this output is missing or stale.
cd "$(dirname "$0")" || exit 2
bash build.sh release ext asan tsan msan miri
