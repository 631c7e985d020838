# sourced by the scripts of /verif: offline Go settings.
export PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off CGO_ENABLED=0
