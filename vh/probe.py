"""Recording backends registered with the connection registry."""
import io
from types import SimpleNamespace as Bunch

from abl.vpath.base import fs as vfs
from abl.vpath.base.fs import FileSystem

REG = vfs.CONNECTION_REGISTRY
# no background cleaning while cases run; it is checked with registries of its own
REG.run_clean_thread = False


class Log(object):
    def __init__(self):
        self.created = []     # (factory label, args, kwargs, instance)
        self.closed = []      # instances
        self.calls = []       # (instance, operation)


LOG = Log()


def reset():
    LOG.__init__()


class Probe(FileSystem):
    scheme = "probe"

    def _initialize(self):
        self.close_error = None
        self.op_error = None

    def close(self):
        LOG.closed.append(self)
        if self.close_error:
            raise self.close_error

    def __getattribute__(self, name):
        if name in OPS:
            def call(*args, **kw):
                LOG.calls.append((self, name))
                if self.op_error:
                    raise self.op_error
                answer = OPS[name]
                return answer() if callable(answer) else answer
            return call
        return FileSystem.__getattribute__(self, name)


# operations of a path and what the recording backend answers
OPS = dict(open=io.BytesIO, listdir=[], removefile=None, removedir=None, mkdir=None, exists=True,
           isfile=True, isdir=False, isexec=False, set_exec=None, islink=False, readlink=None,
           symlink=None, info=lambda: Bunch(size=1, mode=0o644, mtime=1.0), sync=None, mtime=1.0, copystat=None, lock=None, copy=None,
           move=None, makedirs=None, glob=[], walk=[], _manipulate=None, md5=None,
           switch=None, update=None, log=[], log_by_time=[])


class FactoryError(Exception):
    pass


def factory(label, cls=Probe, fail=()):
    """A factory that records its calls; fail: list of call numbers that raise."""
    n = [0]

    def make(*args, **kw):
        n[0] += 1
        if n[0] in fail:
            raise FactoryError("call %d of %s" % (n[0], label))
        inst = cls(*args, **kw)
        LOG.created.append((label, args, kw, inst))
        return inst
    make.label = label
    return make


def norm(args, kw):
    """Arguments of a factory call as a dictionary, missing ones as None."""
    d = dict(zip(("hostname", "port", "username", "password", "vpath_connector"), args))
    extras = {}
    for k, v in kw.items():
        if k in ("hostname", "port", "username", "password", "vpath_connector"):
            d[k] = v
        else:
            extras[k] = v
    return {k: d.get(k) or None for k in ("hostname", "port", "username", "password",
                                          "vpath_connector")}, extras


RESERVED = {"hostname", "port", "username", "password", "vpath_connector", "scheme", "self", "uri",
            "sep"}
