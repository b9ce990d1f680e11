"""Stages the Python modules of the tree with freshly generated *_pb2 modules.

fcp/demo/__init__.py is left out (it imports tensorflow_federated), as in the
project's own offline build.
"""
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '_build'))
PY = '/opt/fcp/pyvenv/bin/python'
SITE = '/opt/fcp/pyvenv/lib/python3.12/site-packages'


def closure(protos):
    """The protos and those they import, of the tree and the stand-ins."""
    todo, seen = list(protos), []
    while todo:
        p = todo.pop()
        for base in (REPO, VERIF + '/shims/protos'):
            f = os.path.join(base, p)
            if os.path.exists(f) and p not in seen:
                seen.append(p)
                todo += re.findall(r'^import (?:public )?"([^"]+)";', open(f).read(), re.M)
    return sorted(seen)


def stage(name, modules, protos):
    """-> the directory now first on sys.path."""
    out = os.path.join(B, 'pystage', name)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(os.path.join(out, 'fcp', 'demo'))
    r = subprocess.run([PY, '-m', 'grpc_tools.protoc', '-I' + REPO, '-I' + VERIF + '/shims/protos',
                        '-I' + SITE, '--python_out=' + out] + closure(protos),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd='/')
    if r.returncode:
        raise RuntimeError(r.stdout)
    for m in modules:
        shutil.copyfile(os.path.join(REPO, 'fcp', 'demo', m + '.py'),
                        os.path.join(out, 'fcp', 'demo', m + '.py'))
    sys.dont_write_bytecode = True
    sys.path.insert(0, out)
    return out
