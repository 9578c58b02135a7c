# sourced by demo.sh: builds a driver against the sources in the current directory
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'find "$T" -mindepth 1 -delete; rmdir "$T"' EXIT
I="-IDFABuilder/include -IDFABuilder/interface -IJSONPathParser -IJSONQuery"
build() { # build DRIVER.c [flags]
  gcc -std=gnu99 -w -g $2 $3 $I "$here/$1" JSONQuery/*.c -o "$T/q" _build/lib/libDFABuilder.a _build/lib/libJSONPathParser.a -lstdc++ -lpthread -lm 2>"$T/err" || { head -20 "$T/err"; exit 9; }
}
# check MODE PATH JSON EXPECTED
check() {
  printf '%s' "$3" > "$T/in.json"
  timeout 60 "$T/q" "$1" "$2" "$T/in.json" 2>/dev/null | sed '0,/^n=/{/^n=/!d}' > "$T/got"
  printf '%s' "$4" > "$T/want"
  if ! diff "$T/want" "$T/got" > "$T/diff"; then echo "query $2 in mode $1 on $3"; head -c 2000 "$T/diff"; exit 1; fi
}
