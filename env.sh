# Go settings (same toolchain and caches as /opt/vp/env.sh).
export HOME=/root
export PATH=/opt/veriftools/go1.24.13/bin:$PATH
unset GOROOT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" CGO_ENABLED=1
export GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
