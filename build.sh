# vsim_build DIR RACE builds DIR/vsim from /repo's working tree.
# It sets VSIM_MODE and VSIM_POINTS.
vsim_build() {
	local dir=$1 race=$2 log
	log=$dir/build.log
	cd "$here/sim" || return 2
	if ! go build -o "$dir/instr" ./cmd/instr >"$log" 2>&1; then
		cat "$log" >&2
		return 2
	fi
	local std=
	for mode in instrumented "without statement-level scheduling points" "uninstrumented"; do
		mkdir -p "$dir/ov"
		VSIM_MODE=$mode VSIM_POINTS=0
		case $mode in
		instrumented) "$dir/instr" -repo /repo -out "$dir/ov" $( [ -n "$race" ] && echo -race ) ;;
		without*) "$dir/instr" -repo /repo -out "$dir/ov" -noyield $( [ -n "$race" ] && echo -race ) ;;
		*) echo '{"Replace":{}}' >"$dir/ov/overlay.json" ;;
		esac >"$log" 2>&1 || { cat "$log" >&2; continue; }
		VSIM_POINTS=$(sed -n 's/.* \([0-9]*\) scheduling points.*/\1/p' "$log")
		VSIM_POINTS=${VSIM_POINTS:-0}
		if go build $race -overlay "$dir/ov/overlay.json" -o "$dir/vsim" ./cmd/vsim >"$log" 2>&1; then
			return 0
		fi
		cat "$log" >&2
	done
	return 2
}
