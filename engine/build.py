"""Compiles /repo's current sources to LLVM IR in a private scratch directory and loads them."""
import os, subprocess, tempfile, shutil, atexit, concurrent.futures as cf
from . import ir

REPO = os.environ.get('JPS_REPO', '/repo')
INC = ['DFABuilder/include', 'DFABuilder/interface', 'JSONPathParser', 'JSONQuery']
CF = ['-std=c99', '-D__NO_CTYPE', '-D_GNU_SOURCE', '-g', '-O0', '-Xclang', '-disable-O0-optnone', '-femit-all-decls', '-Wno-everything',
      '-Wno-error=implicit-function-declaration', '-Wno-error=return-type', '-fno-discard-value-names']
_tmp = None


class BuildError(Exception):
    pass


def tmp():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='jps-verif-')
        atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return r.stdout


def compile_c(src, name=None, extra=(), sroa=True, passes='sroa'):
    name = name or os.path.basename(src).replace('.', '_')
    ll = os.path.join(tmp(), name + '.raw.ll')
    out = os.path.join(tmp(), name + '.ll')
    inc = sum((['-I', os.path.join(REPO, d)] for d in INC), []) + ['-I', tmp()]
    sh(['clang'] + CF + inc + list(extra) + ['-S', '-emit-llvm', src, '-o', ll])
    if sroa:
        sh(['opt', '-S', '-passes=' + passes, ll, '-o', out])
    else:
        out = ll
    return out


def program(srcs, extra=(), passes='sroa'):
    """srcs: paths relative to /repo, or (name, text) of an extra translation unit"""
    jobs = []
    for s in srcs:
        if isinstance(s, tuple):
            p = os.path.join(tmp(), s[0])
            with open(p, 'w') as f:
                f.write(s[1])
            jobs.append(p)
        else:
            jobs.append(os.path.join(REPO, s))
    with cf.ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(lambda p: compile_c(p, extra=extra, passes=passes), jobs))
    mods = [ir.Module(o) for o in outs]
    for m, s in zip(mods, srcs):
        m.src = s if isinstance(s, str) else s[0]
    return ir.Program(mods)


API_TU = '''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "path_processor.h"
'''


def layout(structs, includes):
    """{'S.f': offset, 'S': size} by compiling offsetof constants"""
    t = ''.join('#include %s\n' % i for i in includes) + '#include <stddef.h>\n'
    names = []
    for s, fs in structs.items():
        t += 'const long verif_size_%s = sizeof(%s);\n' % (s, s)
        names.append((s, 'verif_size_%s' % s))
        for f in fs:
            n = 'verif_off_%s_%s' % (s, f)
            t += 'const long %s = offsetof(%s, %s);\n' % (n, s, f)
            names.append(('%s.%s' % (s, f), n))
    p = os.path.join(tmp(), 'verif_layout.c')
    with open(p, 'w') as f:
        f.write(t)
    m = ir.Module(compile_c(p, sroa=False))
    return {k: m.globals[n].init[1] for k, n in names}


def consts(names, includes):
    """values of enumerators and macros"""
    t = ''.join('#include %s\n' % i for i in includes)
    for n in names:
        t += 'const long verif_val_%s = (long)(%s);\n' % (n, n)
    p = os.path.join(tmp(), 'verif_consts.c')
    with open(p, 'w') as f:
        f.write(t)
    m = ir.Module(compile_c(p, sroa=False))
    return {n: m.globals['verif_val_' + n].init[1] for n in names}


def toolchain():
    for t in ('clang', 'opt', 'bison', 'flex'):
        if not shutil.which(t):
            raise BuildError('%s is not installed' % t)
        print(sh([t, '--version']).splitlines()[0])
