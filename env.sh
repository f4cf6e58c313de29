# Go environment of the checks: offline, module cache only.
export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off CGO_ENABLED=1
