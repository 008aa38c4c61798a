#!/bin/bash
# Builds everything once, which also fills Go's build cache.
HERE=$(cd "$(dirname "$0")" && pwd)
bash "$HERE/build.sh" "$HERE/.work/setup" cli api race
