# offline Go environment of the checks
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOTOOLCHAIN=local
