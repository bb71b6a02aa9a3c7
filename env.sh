# the Go toolchain, offline
export HOME=/root GOTOOLCHAIN=local GOROOT=/opt/veriftools/go1.27.3
export PATH=$GOROOT/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
