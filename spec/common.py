from dv import front
from dv.val import *
from dv.sym import *
from dv.lib import void
_progs = {}


def cached_extract(name, files, roots, extra=""):
    if name not in _progs:
        _progs[name] = front.extract(files, roots, extra, name)
    return _progs[name]
