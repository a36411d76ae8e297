#!/bin/bash
# Build sinksmtp from the working tree of $REPO_DIR against the smtpd stand-in.
#   build.sh OUTDIR plain|race|clock ...
# plain: OUTDIR/sinksmtp         ordinary build
# race:  OUTDIR/sinksmtp-race    with the race detector
# oldtls: OUTDIR/sinksmtp-oldtls with Go 1.24, which still has TLS 1.0 and 1.1
#        and the RSA key exchange; the plain build if there is no Go 1.24 or
#        it cannot build the code
# yield: OUTDIR/sinksmtp-yield   with a yield or short sleep now and then
#        between any two statements (lib/perturb), and sinksmtp-raceyield
#        with the race detector as well; without them if that does not compile
# clock: OUTDIR/sinksmtp-clock   with a virtual clock (patched package time)
# /repo is only read: go.mod is taken from a copy with -modfile.
. "$(dirname "$0")/env.sh"
set -e
out=$1; shift
mkdir -p "$out/mod"
cp "$REPO_DIR/go.mod" "$out/mod/go.mod"
[ -f "$REPO_DIR/go.sum" ] && cp "$REPO_DIR/go.sum" "$out/mod/go.sum"
echo "replace github.com/siebenmann/smtpd => $VERIF_DIR/smtpd" >> "$out/mod/go.mod"
cd "$REPO_DIR"
B="go build -modfile=$out/mod/go.mod -buildvcs=false"
for kind in "$@"; do
	case $kind in
	plain) $B -o "$out/sinksmtp" . ;;
	race) CGO_ENABLED=1 $B -race -tags netgo -o "$out/sinksmtp-race" . ;;
	oldtls)
		if ! { command -v go1.24 > /dev/null && go1.24 ${B#go } -o "$out/sinksmtp-oldtls" . 2> /dev/null; }; then
			$B -o "$out/sinksmtp-oldtls" .
		fi ;;
	clock)
		src=$(go env GOROOT)/src/time/time.go
		mkdir -p "$out/clk"
		sed -e 's/subMono(runtimeNano()-startNano, t.ext)/subMono(runtimeNano()+verifOff-startNano, t.ext)/' \
		    -e 's/subMono(t.ext, runtimeNano()-startNano)/subMono(t.ext, runtimeNano()+verifOff-startNano)/' \
		    -e '/^func Now() Time {/,/^}/s/sec, nsec, mono := runtimeNow()/sec, nsec, mono := runtimeNow(); sec += verifOff \/ 1e9; mono += verifOff/' \
		    "$src" > "$out/clk/time.go"
		cat >> "$out/clk/time.go" <<'X'

// Added for verification: a clock the harness can move forward.
var verifOff int64

// VerifAdvance moves the clock forward by whole seconds.
func VerifAdvance(sec int64) { verifOff += sec * 1e9 }
X
		[ "$(grep -c verifOff "$out/clk/time.go")" -ge 5 ] || { echo "cannot patch package time" >&2; exit 2; }
		echo "{\"Replace\": {\"$src\": \"$out/clk/time.go\"}}" > "$out/clk/overlay.json"
		$B -overlay "$out/clk/overlay.json" -tags verifclock -o "$out/sinksmtp-clock" . ;;
	yield)
		mkdir -p "$out/pert"
		(cd "$VERIF_DIR/lib/perturb" && go build -o "$out/pert/perturb" .)
		O=
		if "$out/pert/perturb" "$REPO_DIR" "$out/pert" && $B -overlay "$out/pert/overlay.json" -o "$out/sinksmtp-yield" . 2> "$out/pert/err"; then
			O="-overlay $out/pert/overlay.json"
		else
			echo "build.sh: building without yields" >&2
			$B -o "$out/sinksmtp-yield" .
		fi
		CGO_ENABLED=1 $B -race -tags netgo $O -o "$out/sinksmtp-raceyield" . ;;
	*) echo "build.sh: $kind?" >&2; exit 2 ;;
	esac
done
