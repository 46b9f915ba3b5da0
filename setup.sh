#!/bin/bash
# Prepares everything that does not depend on a change: compiles the dependencies and the harness,
# natively, with ThreadSanitizer and for Miri.
cd "$(dirname "$0")" || exit 2
exec ./build.sh all
