"""Loads the program text from /repo on every run."""
import warnings, ast, os, hashlib

ROOT = os.environ.get('VERIF_REPO', '/repo')

class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.src = open(path, encoding='utf-8').read()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore"); self.tree = ast.parse(self.src)
        self.globals = None      # filled by the interpreter

MODS = {}
def module(name):
    """irrep.gvectors -> Module"""
    if name not in MODS:
        if name == 'irreptables': path = os.path.join(ROOT, 'irreptables/irreptables/__init__.py')
        else: path = os.path.join(ROOT, *name.split('.')) + '.py'
        MODS[name] = Module(name, path)
    return MODS[name]

def exists(name):
    return os.path.exists(os.path.join(ROOT, *name.split('.')) + '.py') or name == 'irreptables'
