"""Runs the second half of a check in a separate process."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import boot  # noqa

if __name__ == '__main__':
    boot.reexec()
    import importlib
    import world
    world.install()
    importlib.import_module('checks.' + sys.argv[1]).main_child()
