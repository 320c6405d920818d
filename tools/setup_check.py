"""setup_cmd: nothing to build; make sure the property-testing library and the code under test can be imported."""
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "vendor"))
import hypothesis  # noqa: E402

print("hypothesis", hypothesis.__version__)
