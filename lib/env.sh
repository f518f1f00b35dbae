export HOME=/root LANG=C.UTF-8 GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export PATH=/opt/veriftools/${PLZ_GO:-go1.23.12}/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
