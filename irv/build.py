"""Builds /repo's current working tree into a private library (never in /repo)."""
import os, shutil, subprocess

def build(repo, outdir, jobs=8):
    pkg, lib = os.path.join(outdir, 'pkg'), os.path.join(outdir, 'lib')
    os.makedirs(pkg); os.makedirs(lib)
    for f in ('DESCRIPTION', 'NAMESPACE', 'LICENSE', 'LICENSE.note', 'NEWS.md'):
        p = os.path.join(repo, f)
        if os.path.exists(p): shutil.copy(p, pkg)
    for d in ('R', 'src', 'inst', 'data', 'tools'):
        p = os.path.join(repo, d)
        if os.path.isdir(p):
            shutil.copytree(p, os.path.join(pkg, d), ignore=shutil.ignore_patterns('*.o', '*.so', '*.d'))
    for f in ('configure', 'cleanup'):
        p = os.path.join(repo, f)
        if os.path.exists(p): shutil.copy(p, pkg)
    mk = os.path.join(outdir, 'Makevars')
    with open(mk, 'w') as fh: fh.write('CFLAGS = -O1 -g0 -fPIC -w\nCXXFLAGS = -O1 -g0 -fPIC -w\n')
    env = dict(os.environ, R_MAKEVARS_USER=mk, MAKEFLAGS=f'-j{jobs}', LC_ALL='C.UTF-8', TZ='UTC', R_LIBS=lib, R_LIBS_USER='/nonexistent',
               _R_CHECK_FORCE_SUGGESTS_='false', R_PROFILE_USER='/nonexistent', R_ENVIRON_USER='/nonexistent')
    r = subprocess.run(['R', 'CMD', 'INSTALL', '--no-docs', '--no-multiarch', '--no-lock', '--no-byte-compile', '--no-test-load', '--library=' + lib, pkg],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode or not os.path.exists(os.path.join(lib, 'vctrs')):
        raise RuntimeError('build failed: ' + r.stdout.decode(errors='replace')[-2000:])
    return lib
