bash "$1/tools/instr.sh" "$1" "$2" "$3" internal/tcp
