#!/bin/bash
# build.sh <repo> <target directory> [symmetries [scalars]]: the python module of the working tree, without MPI, with poisoned and
# fenced tensor data. Other symmetries and scalars are left out of the module, if the lists in the source look as expected.
repo=$1 to=$2 symmetries=$3 scalars=$4
here=$(cd "$(dirname "$0")" && pwd)
suffix=$(/usr/bin/python3 -c 'import sysconfig; print(sysconfig.get_config_var("EXT_SUFFIX"))')
include=$(/usr/bin/python3 -c 'import sysconfig; print(sysconfig.get_paths()["include"])')
mkdir -p "$to" || exit 1
compile() {
   clang++ -std=c++17 -O0 -g0 -w -fPIC -shared -fvisibility=hidden -ftrivial-auto-var-init=pattern -include "$here/../poison.hpp" \
      -DTAT_PYTHON_MODULE=TAT '-DTAT_VERSION="check"' '-DTAT_BUILD_TYPE="check"' '-DTAT_COMPILER_INFORMATION="check"' \
      -I"$repo/PyTAT" -I"$repo/include" -I"$include" "$1" -o "$to/TAT$suffix" -llapack -lblas
}
if [ -n "$symmetries" ]; then
   /usr/bin/python3 - "$repo/PyTAT/PyTAT.cpp" "$to/PyTAT.cpp" "$symmetries" "$scalars" <<'P'
import re, sys
source, target, symmetries, scalars = sys.argv[1:]
text = open(source, encoding="utf8").read()
def keep(name, inside, wanted, text):
    """Keeps the wanted entries of the macro `name`, whose lines are calls of the macro `inside`."""
    m = re.search(r"#define " + name + r"\b((?:[^\n]*\\\n)+[^\n]*\n)", text)
    if not m:
        return text
    calls = re.findall(inside + r"\((\w+)[^)]*\)", m.group(1))
    entries = [e for e in re.findall(inside + r"\([^)]*\)", m.group(1)) if re.match(inside + r"\((\w+)", e).group(1) in wanted]
    head = re.match(r"(\([^)]*\))?", m.group(1)).group(0)
    if not entries or len(calls) < 4:
        return text
    return text[:m.start()] + f"#define {name}{head} " + " ".join(entries) + "\n" + text[m.end():]
if symmetries:
    text = keep("TAT_LOOP_ALL_SCALAR_SYMMETRY", "TAT_SINGLE_SYMMETRY_ALL_SCALAR", symmetries.split(","), text)
if scalars:
    text = keep("TAT_SINGLE_SYMMETRY_ALL_SCALAR", "TAT_SINGLE_SCALAR_SYMMETRY", scalars.split(","), text)
open(target, "w", encoding="utf8").write(text)
P
   compile "$to/PyTAT.cpp" 2>/dev/null && exit 0
fi
compile "$repo/PyTAT/PyTAT.cpp"
