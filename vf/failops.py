"""Things that fail, used from generated scripts. Imported after fora is importable."""
import subprocess

from fora.operations.api import OperationError, operation


@operation("vf_failure")
def op_failure(msg, name=None, check=True, op=None):
    op.desc("vf")
    op.initial_state(a=1)
    op.final_state(a=2)
    return op.failure(msg)


@operation("vf_raises")
def op_error(msg, name=None, check=True, op=None):
    op.desc("vf")
    deeper(OperationError(msg))


@operation("vf_command")
def op_command(msg, name=None, check=True, op=None):
    op.desc("vf")
    deeper(subprocess.CalledProcessError(7, [msg], output=b"vf-stdout", stderr=b"vf-stderr"))


@operation("vf_other")
def op_other(msg, name=None, check=True, op=None):
    op.desc("vf")
    deeper(LookupError(msg))


@operation("vf_outer")
def op_outer(msg, name=None, check=True, op=None):
    """An operation that uses another one, as several operations of fora do."""
    op.desc("vf")
    op_failure(msg)
    return op.success()


@operation("vf_context")
def op_context(msg, name=None, check=True, op=None):
    op.desc("vf")
    try:
        deeper(KeyError("vf-inner"))
    except KeyError:
        deeper(OperationError(msg))


@operation("vf_context2")
def op_context_command(msg, name=None, check=True, op=None):
    op.desc("vf")
    try:
        deeper(KeyError("vf-inner"))
    except KeyError as e:
        raise subprocess.CalledProcessError(7, [msg], output=b"vf-stdout", stderr=b"vf-stderr") from e


@operation("vf_fine")
def op_fine(name=None, check=True, op=None):
    op.desc("vf")
    op.initial_state(a=1)
    op.final_state(a=1)
    return op.success()


def deeper(e):
    raise e


def call(f, *args):
    return f(*args)


def command(msg):
    raise subprocess.CalledProcessError(7, [msg], output=b"vf-stdout", stderr=b"vf-stderr")
