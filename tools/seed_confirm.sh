#!/bin/bash
# seed_confirm.sh ID... : confirm planted bugs in scratch copies: the patch applies, builds, passes the
# repository's tests; the demonstration is quiet without it and fails with it. One line per bug.
cd "$(dirname "$0")/../seeded" || exit 2
S=$PWD
one() {
    id=$1; W=$(mktemp -d /tmp/seedw.XXXXXX)
    cp -a /repo "$W/repo"; cp -a "$S/$id" "$W/bug"
    r="$id:"
    cd "$W/repo" || exit 2
    rm -rf "$W/repo/_build"
    (timeout 300 bash "$W/bug/demo.sh" >"$W/d0" 2>&1); r="$r clean=$?"
    if git apply "$W/bug/patch.diff"; then
        (timeout 300 bash "$W/bug/demo.sh" >"$W/d1" 2>&1); r="$r patched=$? [$(tail -1 "$W/d1" | cut -c1-90)]"
        if [ -z "$NOTEST" ]; then
            cmake -S . -B _b -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo >/dev/null 2>&1 && ninja -C _b >"$W/b" 2>&1 || r="$r BUILDFAIL"
            ctest --test-dir _b -j1 --timeout 120 >"$W/t" 2>&1; r="$r tests=$(grep -o '[0-9]*% tests passed.*' "$W/t" | cut -c1-40)"
            fails=$(grep -E 'Failed|Timeout' "$W/t" | sed -n 's/.*- \(run[A-Za-z]*\).*/\1/p' | tr '\n' ' '); r="$r $fails"
        fi
    else r="$r NOAPPLY"; fi
    echo "$r"
    rm -rf "$W"
}
export -f one; export S NOTEST
printf '%s\n' "$@" | xargs -P "${P:-4}" -I{} bash -c 'one {}'
