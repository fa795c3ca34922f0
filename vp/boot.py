"""Interpreter set-up shared by every check: the code under test comes from
/repo's working tree, its libraries from /opt/venv, hypothesis from the tool
environment (both are CPython 3.12)."""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

sys.dont_write_bytecode = True
for p in (VERIF, REPO):
    if p in sys.path:
        sys.path.remove(p)
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)
if TOOLS not in sys.path:
    sys.path.append(TOOLS)  # last: the repository's own libraries win

# the inline executor has to be in place before the code under test imports it
from vp import inline_executor  # noqa: E402

inline_executor.install()

from loguru import logger  # noqa: E402

logger.remove()
logger.disable("vanillaplusjs")
