"""
Checks that the tools the checks need are there. Nothing is built: the
checks import aiootp from /repo's working tree.
"""

import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
assert sys.version_info >= (3, 12), sys.version
import aiofiles, cryptography  # noqa: F401, E401

print("ready")
