#!/bin/bash
# setup.sh: nothing to install; builds once so that the build cache is warm and a
# broken toolchain shows early.
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
scratch="$(mktemp -d "${TMPDIR:-/tmp}/simsetup.XXXXXX")"
trap 'rm -rf "$scratch"' EXIT
bash "$here/build.sh" "${SIM_REPO:-/repo}" "$scratch" all
