"""Entry point: `checks/run <PROPERTY> ...`."""

import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core  # noqa: E402


def run() -> int:
    pid = sys.argv[1]
    scratch = core.prepare_process()
    pid_of_main = os.getpid()
    try:
        import torch

        torch.set_num_threads(1)
        import logging

        logging.getLogger("artist").addHandler(logging.NullHandler())
        logging.getLogger("artist").setLevel(logging.ERROR)
        from vlib import poison

        poison.install()
        import artist.field  # noqa: F401  (some subpackages can only be imported after this one)

        module = importlib.import_module(f"checks.{pid.lower()}")
        import artist

        here = os.path.realpath(os.path.dirname(artist.__file__))
        if here != os.path.realpath(str(core.REPO / "artist")):
            print(f"wrong artist package: {here}")
            return 3
        return core.main(module.CHECK, sys.argv[2:])
    finally:
        if os.getpid() == pid_of_main:
            core.cleanup(scratch)


if __name__ == "__main__":
    code = run()
    sys.stdout.flush()
    os._exit(code)
