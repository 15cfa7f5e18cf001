"""Run the command line tools the way a user does: options anywhere, in short or long form."""
import contextlib
import os
import random
import sys
import zlib
from pathlib import Path
from unittest import mock


def argv(command, paths, opts, rnd=None):
    """command: words; paths: positional arguments; opts: list of ((forms...), value or None)"""
    if rnd is None:
        rnd = random.Random(zlib.crc32(repr((command, [Path(p).name for p in paths], opts)).encode()))
    groups = []
    for forms, value in opts:
        f = rnd.choice(forms)
        if value is None:
            groups.append([f])
        elif f.startswith("--") and rnd.random() < 0.5:
            groups.append([f + "=" + str(value)])
        else:
            groups.append([f, str(value)])
    rnd.shuffle(groups)
    k = rnd.randint(0, len(groups))
    return list(command) + sum(groups[:k], []) + [str(p) for p in paths] + sum(groups[k:], [])


FORCE = (("-F", "--Force"), None)


@contextlib.contextmanager
def fresh():
    """standard output is dropped, and the log file of the run is closed"""
    import oplab.console as console

    sys.stdout.flush()
    null = os.open(os.devnull, os.O_WRONLY)
    fd = os.dup(1)
    os.dup2(null, 1)
    try:
        yield
    finally:
        sys.stdout.flush()
        os.dup2(fd, 1)
        os.close(fd)
        os.close(null)
        lg, console.logger = getattr(console, "logger", None), None
        for h in list(lg.handlers) if lg is not None else ():
            h.close()
            lg.removeHandler(h)


def auv_nav(a):
    from auv_nav.auv_nav import main

    with fresh():
        main(a)


def auv_cal(a):
    from auv_cal.auv_cal import main

    with fresh():
        main(a)


def correct_images(a):
    """the arguments may come with the call or with the process"""
    from correct_images.correct_images import main

    if zlib.crc32(" ".join(Path(x).name for x in a).encode()) % 2:
        with mock.patch.object(sys, "argv", ["correct_images"]):
            main(list(a))
    else:
        with mock.patch.object(sys, "argv", ["correct_images"] + list(a)):
            main()


def nav_parse(paths, force=False, merge=False, rnd=None):
    auv_nav(argv(["parse"], paths, [FORCE] * force + [(("--merge",), None)] * merge, rnd))


def nav_process(path, force=False, start="", end="", rnd=None):
    auv_nav(argv(["process"], [path], [FORCE] * force + [(("-s", "--start"), start)] * bool(start)
                 + [(("-e", "--end"), end)] * bool(end), rnd))


def suffixed(force, suffix):
    return [FORCE] * force + [(("--suffix",), suffix)] * bool(suffix)
