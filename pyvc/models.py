"""Installs the models of external libraries (contracts assumed on dependencies)."""
from . import dtm, npm, pintm, scipym


def install(it):
    npm.install(it)
    dtm.install(it)
    pintm.install(it)
    scipym.install(it)
