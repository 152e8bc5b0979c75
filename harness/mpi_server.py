"""Runs cases on every MPI rank.

usage: mpirun -n N python -m harness.mpi_server DIRECTORY

Rank i reads pickled (operation, case) requests from DIRECTORY/req.i and writes
("ok", dict of arrays) or ("error", text) to DIRECTORY/rsp.i, so that waiting
costs nothing and an error on one rank is seen even if others wait for it in a
collective.  No oracle runs here.
"""

import os
import pickle
import struct
import sys
import traceback
import warnings

warnings.simplefilter("ignore")


def read(f):
    head = f.read(8)
    if len(head) < 8:
        return None
    return pickle.loads(f.read(struct.unpack("<Q", head)[0]))


def write(f, obj):
    blob = pickle.dumps(obj, protocol=4)
    f.write(struct.pack("<Q", len(blob)) + blob)
    f.flush()


def serve(where):
    from mpi4py import MPI

    from harness import mpi_ops

    rank = MPI.COMM_WORLD.Get_rank()
    fin = open(f"{where}/req.{rank}", "rb")
    fout = open(f"{where}/rsp.{rank}", "wb")
    while True:
        req = read(fin)
        if req is None:
            os._exit(0)
        op, case = req
        try:
            out = ("ok", getattr(mpi_ops, op)(case))
        except Exception as e:
            out = ("error", "".join(traceback.format_exception(
                type(e), e, e.__traceback__))[-2500:])
        write(fout, out)


if __name__ == "__main__":
    serve(sys.argv[1])
