# scheduling points in every package of the server
cd "$2" || exit 1
dirs=$(find . -name '*.go' -not -name '*_test.go' -not -path './examples/*' -not -path './tests/*' -not -path './.git/*' -printf '%h\n' | sort -u | grep -v '^\.$' | sed 's#^\./##')
# shellcheck disable=SC2086
VSCHED=vswitch bash "$1/tools/instr.sh" "$1" "$2" "$3" $dirs
