"""One simulated process: runs an entry point of the code under test inside
this interpreter with simulated standard streams, and reproduces what CPython
does at interpreter exit (flush of the standard streams, exit status 120 if
that fails)."""

import gc
import io
import os
import runpy
import sys
import traceback

from sim import simfs


class ProcResult(dict):
    __getattr__ = dict.get


def normalise(text, backing):
    return text.replace(backing, simfs.VROOT)


def make_stdout(fs, line_buffering=False, encoding="utf-8"):
    path = os.path.join(fs.backing + ".stdout")
    fd = simfs._real["os_open"](path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
    raw = simfs.RawWrite(fs, "<stdout>", fd)
    out = io.TextIOWrapper(io.BufferedWriter(raw), encoding=encoding, errors="strict",
                           newline="\n", line_buffering=line_buffering)
    out.mode = "w"
    return out, path


def run(fs, argv, entry=("module", "trlc"), line_buffering=False, before=None, encoding="utf-8"):
    """Runs entry with sys.argv = argv inside the simulated file system."""
    old = (sys.stdout, sys.stderr, sys.argv, sys.unraisablehook)
    out, out_path = make_stdout(fs, line_buffering, encoding)
    err = io.StringIO()
    unraisable = []
    status = 0
    exc = None
    exc_site = None
    fs.install()
    try:
        sys.stdout, sys.stderr, sys.argv = out, err, list(argv)
        sys.unraisablehook = lambda u: unraisable.append(
            type(u.exc_value).__name__ if u.exc_value is not None else "?")
        try:
            if before:
                before()
            if entry[0] == "module":
                runpy.run_module(entry[1], run_name="__main__", alter_sys=False)
            else:
                runpy.run_path(entry[1], run_name="__main__")
        except SystemExit as e:
            if e.code is None:
                status = 0
            elif isinstance(e.code, int):
                status = e.code & 0xff
            else:
                status = 1
                err.write(str(e.code) + "\n")
        except simfs.HarnessError:
            raise
        except KeyboardInterrupt:
            status = 130
            exc = "KeyboardInterrupt"
            traceback.print_exc(file=err)
        except BaseException as e:  # pylint: disable=broad-except
            if isinstance(e, RecursionError):
                exc = "RecursionError"
                err.write("RecursionError\n")
            else:
                exc = type(e).__name__
                traceback.print_exc(file=err)
            exc_site = crash_site(e)
            status = 1
            e.__traceback__ = None
            del e
        # interpreter shutdown
        gc.collect()
        fs_target = sys.stdout
        if fs_target is out:
            try:
                out.flush()
            except BaseException as e:  # pylint: disable=broad-except
                unraisable.append("exit-flush:" + type(e).__name__)
                status = 120
        elif fs_target is not None and not getattr(fs_target, "closed", False):
            try:
                fs_target.flush()
            except BaseException as e:  # pylint: disable=broad-except
                unraisable.append("exit-flush:" + type(e).__name__)
                status = 120
    finally:
        sys.stdout, sys.stderr, sys.argv, sys.unraisablehook = old
        fs.uninstall()
    redirected = out.buffer.raw.redirected() if not out.closed else False
    try:
        out.detach()
    except BaseException:  # pylint: disable=broad-except
        pass
    with open(out_path, "rb") as fd:
        delivered = fd.read()
    return ProcResult(status=status, exc=exc, site=exc_site,
                      out=normalise(delivered.decode(encoding, "replace"), fs.backing),
                      err=normalise(err.getvalue(), fs.backing),
                      unraisable=unraisable, redirected=redirected)


def crash_site(exc):
    """Function (inside the code under test) where an exception came from."""
    site = None
    for frame, _ in traceback.walk_tb(exc.__traceback__):
        name = frame.f_code.co_filename
        if "/trlc/" in name or name.endswith("trlc_rst.py"):
            site = "%s:%s" % (os.path.basename(name), frame.f_code.co_qualname)
    return site
