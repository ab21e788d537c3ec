# Go toolchain for the checks: offline, the pinned toolchain, its own flags.
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
