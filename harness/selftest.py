"""setup_cmd: nothing to build (the code under test is Python); check that it imports and the simulator runs."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import simcore
from cocotb.triggers import Timer


async def main():
    await Timer(5, "ns")
    return simcore.now_ns()

assert simcore.run(main) == 5.0
import hypothesis
print("selftest ok: hypothesis", hypothesis.__version__, "code under test at", simcore.REPO)
