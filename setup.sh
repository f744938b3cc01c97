#!/bin/bash
# Builds the harness and everything it depends on, offline.
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/build.sh"
