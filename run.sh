#!/bin/bash
# run.sh setup | check <property> <quick|thorough> [flags] | replay <property> <file>
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
bin=$here/bin/gosym
build() {
	if [ ! -x "$bin" ] || [ -n "$(find "$here/gosym" -name '*.go' -newer "$bin" -print -quit)" ]; then
		mkdir -p "$here/bin"
		(cd "$here/gosym" && go build -o "$bin.$$" . && mv "$bin.$$" "$bin") || { echo "cannot build gosym" >&2; exit 2; }
	fi
}
case "$1" in
setup) build ;;
check)
	build
	prop=$2 tier=${3:-quick}
	shift 3
	budget=400
	[ "$tier" = thorough ] && budget=${VERIF_BUDGET:-780}
	exec "$bin" -repo /repo -harness "$here/harness" -prop "$prop" -tier "$tier" -budget $budget -seed "${VERIF_SEED:-1}" \
		-known "$here/known-findings.txt" -meta "$here/bounds.json" -evidence "$here/evidence/$prop.json" -outdir "$here/evidence" "$@"
	;;
replay)
	build
	exec "$bin" -repo /repo -harness "$here/harness" -prop "$2" -replay "$3"
	;;
dev) # dev <property> [flags]: verbose run without evidence
	build
	p=$2
	shift 2
	exec "$bin" -repo /repo -harness "$here/harness" -prop "$p" -known "$here/known-findings.txt" -outdir /tmp/gsout -v "$@"
	;;
*) echo "usage: run.sh setup | check <property> <tier> | replay <property> <file>" >&2; exit 2 ;;
esac
