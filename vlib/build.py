"""Building the tools that depend on /repo's source."""
import os
from common import *

KVX = os.path.join(TARGET, "release", "kvx")


def kvx():
    return cargo_build("extract", ["--release"])


def symgeo():
    ok, err = kvx()
    if not ok:
        return ok, err
    gen = os.path.join(BUILD, "gen")
    os.makedirs(gen, exist_ok=True)
    rc, o, e = sh([KVX, "geo", REPO, gen])
    if rc != 0:
        return False, o + e
    return cargo_build("engine", ["--features", "symgeo", "--bin", "geos"], env={"KV_GEN": gen})
