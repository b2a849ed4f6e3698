"""Runs the repository's packet generator: rungen.py REPO OUTDIR NAMESPACE FILE.yaml
(the entry-point lookup of an installed package is replaced by the one declared in setup.cfg)."""
import sys, os, types
sys.dont_write_bytecode = True
repo, out, ns, f = sys.argv[1:5]
extra = sys.argv[5:]
sys.path.insert(0, repo + '/src')
import pkg_resources


class EP:
    name = 'cpp'
    dist = types.SimpleNamespace(version='0')

    def load(self):
        from vrtgen.backend.cpp import CppGenerator
        return CppGenerator


pkg_resources.iter_entry_points = lambda *_: [EP()]
os.makedirs(out, exist_ok=True)
from vrtgen import main
sys.argv = ['vrtpktgen', 'cpp', *extra, '--dir', out, *(['--namespace', ns] if ns != '-' else []), f]
main.main()
