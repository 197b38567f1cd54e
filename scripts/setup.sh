#!/bin/bash
here=$(cd "$(dirname "$0")/.." && pwd)
. "$here/scripts/env.sh"
build_tool
