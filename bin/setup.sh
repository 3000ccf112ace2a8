#!/bin/bash
set -u
cd "$(dirname "$0")/.." || exit 3
bash bin/build.sh dev && bash bin/build.sh asan && bash bin/build.sh tsan
