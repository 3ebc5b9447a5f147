#!/bin/bash
# Build the monitors once (every check rebuilds from /repo's working tree).
cd "$(dirname "$0")" || exit 2
bash build.sh || exit 2
for leg in tsan asan miri; do
    bash build.sh $leg || echo "note: the $leg build is not available"
done
exit 0
