#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the definitions in defs*.py: applies each
change in a scratch copy, checks that it compiles and passes the stable tests,
and that the demonstration passes without and fails with it.
usage: mkseed.py [ids]"""
import glob, json, os, shutil, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
S = '/tmp/seedwork'
R = S + '/repo'
SEEDED = os.path.join(here, '..', '..', 'seeded')
MC = os.path.join(here, '..', '..', 'target', 'release', 'mc')
DEMO = '''#!/bin/bash
# Runs in the repository. Builds lunify and the demonstration next to this file.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$t"' EXIT
rustc --edition 2021 -A warnings -O --crate-type rlib --crate-name lunify -o "$t/liblunify.rlib" src/lib.rs || exit 99
rustc --edition 2021 -A warnings --extern lunify="$t/liblunify.rlib" -o "$t/demo" "$here/demo.rs" || exit 99
%scd "$here" && timeout 100 "$t/demo" "$t"
'''
MAIN = '''#include "lua.h"
#include "lauxlib.h"
#include "lualib.h"
#include <stdio.h>
int main(int n, char **a) {
    lua_State *l = luaL_newstate();
    luaL_openlibs(l);
    if (luaL_loadfile(l, a[1]) || lua_pcall(l, 0, 0, 0)) printf("error: %s\\n", lua_tostring(l, -1));
    return 0;
}
'''
LUA = '''L=$(ls -d /root/.cargo/registry/src/*/lua-src-*/lua-5.1.5 | head -1)
(cd "$t" && ls "$L"/*.c | grep -v '/luac.c\\|/print.c' | xargs -P 8 -n 1 gcc -O1 -w -c && gcc -w -I"$L" -o lua "$here/main.c" *.o -lm) 2>/dev/null || exit 99
'''
PRE = '''#![allow(unused)]
use lunify::*;
use lunify::OperandType::*;
/// Runs a chunk on a stock Lua 5.1 and returns what it printed.
fn lua(chunk: &[u8]) -> String {
    let d = std::env::args().nth(1).unwrap();
    let f = format!("{d}/chunk");
    std::fs::write(&f, chunk).unwrap();
    let o = std::process::Command::new(format!("{d}/lua")).arg(&f).output().unwrap();
    String::from_utf8_lossy(&[o.stdout, o.stderr].concat()).to_string()
}
fn read(n: &str) -> Vec<u8> {
    std::fs::read(n).unwrap()
}
fn native() -> Format {
    Format { format: 0, endianness: Endianness::Little, integer_width: BitWidth::Bit32, size_t_width: BitWidth::Bit64, instruction_width: BitWidth::Bit32, number_width: BitWidth::Bit64, is_number_integral: false }
}
fn flush(i: u64, o: u64) -> Settings<'static> {
    let mut s = Settings::default();
    s.lua50.fields_per_flush = i;
    s.lua51.fields_per_flush = i;
    s.output.fields_per_flush = o;
    s
}
fn main() {
'''
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
def reset():
    sh('git', '-C', R, 'checkout', '-q', '--', '.')
def original(diff):
    """Is any of the removed lines one of the original repository?"""
    f = None; n = 0
    for l in open(diff).read().split('\n'):
        if l.startswith('--- a/'): f = l[6:]
        elif l.startswith('@@'): n = int(l.split()[1].split(',')[0][1:])
        elif l.startswith('-') and not l.startswith('---'):
            if sh('git', '-C', R, 'blame', '-s', '-L', '%d,%d' % (n, n), 'HEAD', '--', f).stdout.startswith('^'): return True
            n += 1
        elif l.startswith(' '): n += 1
    return False
def main():
    defs = {}
    for f in sorted(glob.glob(here + '/defs*.py')):
        exec(open(f).read(), {'defs': defs, 'here': here})
    ids = sys.argv[1:] or list(defs)
    shutil.rmtree(S, ignore_errors=True); os.makedirs(S)
    sh('cp', '-a', '/repo', R)
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    for i in ids:
        d = defs[i]
        D = os.path.join(SEEDED, i)
        shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
        rs = d['demo']
        uses_lua = 'lua(' in rs
        open(D + '/demo.rs', 'w').write(PRE + rs + '\n}\n')
        open(D + '/demo.sh', 'w').write(DEMO % (LUA if uses_lua else ''))
        os.chmod(D + '/demo.sh', 0o755)
        if uses_lua: open(D + '/main.c', 'w').write(MAIN)
        for name, (ver, fl, src) in d.get('chunks', {}).items():
            r = subprocess.run([MC, 'compile', str(ver), str(fl), D + '/' + name], input=src, text=True, capture_output=True)
            assert r.returncode == 0, r.stderr
            open(D + '/' + name + '.lua', 'w').write(src + '\n')
        reset()
        ok = sh('bash', D + '/demo.sh', cwd=R)
        for f, a, b in d['edits']:
            p = R + '/src/' + f
            s = open(p).read()
            assert s.count(a) == 1, (i, f, a, s.count(a))
            open(p, 'w').write(s.replace(a, b))
        open(D + '/patch.diff', 'w').write(sh('git', '-C', R, 'diff').stdout)
        json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(D + '/meta.json', 'w'), indent=1)
        bad = sh('bash', D + '/demo.sh', cwd=R)
        env = dict(os.environ, CARGO_TARGET_DIR=R + '/target', CARGO_NET_OFFLINE='true', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_PROFILE_TEST_DEBUG='line-tables-only', CARGO_INCREMENTAL='1')
        t = sh('timeout', '200', 'cargo', 'test', '--workspace', '--no-fail-fast', '--offline', '--features', 'integration', cwd=R, env=env)
        c = sh('cargo', 'check', '--workspace', '--offline', '--all-features', cwd=R, env=env)
        v = []
        if not original(D + '/patch.diff'): v.append('NO ORIGINAL LINE CHANGED')
        if ok.returncode != 0: v.append('DEMO FAILS ON THE UNCHANGED TREE %d: %s' % (ok.returncode, (ok.stdout + ok.stderr)[-300:]))
        if bad.returncode in (0, 99): v.append('DEMO %d WITH THE CHANGE: %s' % (bad.returncode, (bad.stdout + bad.stderr)[-300:]))
        if t.returncode != 0: v.append('TESTS FAIL: ' + ' '.join(l for l in t.stdout.split('\n') if 'FAILED' in l)[:300] + t.stderr[-300:])
        if c.returncode != 0: v.append('ALL FEATURES: ' + c.stderr[-300:])
        print(i, 'ok' if not v else v, '|', (bad.stdout + bad.stderr).strip().split('\n')[-1][:150] if not v else '', flush=True)
        reset()
    shutil.rmtree(S, ignore_errors=True)
main()
