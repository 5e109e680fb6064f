# The toolchain, offline.
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do
	[ -x $d/go ] && { PATH=$d:$PATH; break; }
done
export PATH
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off CGO_ENABLED=${CGO_ENABLED:-1}
unset GOROOT GOEXPERIMENT GODEBUG
