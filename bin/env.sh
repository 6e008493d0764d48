VERIF_DIR=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
VERIF_REPO=${VERIF_REPO:-/repo}
VERIF_WORK=$VERIF_DIR/.work
export HOME=${HOME:-/root}
mkdir -p "$VERIF_WORK"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off GOPATH=${GOPATH:-/root/go} GOSUMDB=off GONOSUMDB='*'
