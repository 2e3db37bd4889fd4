# Go environment of the simulator (GOPATH mode, offline, own build cache).
if [ -d /opt/veriftools/go1.27.3/bin ]; then PATH=/opt/veriftools/go1.27.3/bin:$PATH; fi
export PATH HOME=${HOME:-/root} GOENV=off GO111MODULE=off GOFLAGS= GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0
export GOCACHE=${SIM_GOCACHE:-/verif/.build/gocache}
