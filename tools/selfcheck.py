"""Check that the harness can be imported and the code under test is found."""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True

from harness import boot

boot.setup_paths()
boot.setup_env(0)

import hypothesis

bartz = boot.import_sut()
print('hypothesis', hypothesis.__version__)
print('code under test', bartz.__file__)
