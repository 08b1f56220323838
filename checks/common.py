"""Helpers shared by the checks."""
import os
import random
import shutil
import sqlite3

from sim import base, gen, world
from sim.base import Check, Outcome, call, faults_of, must, short
from sim.world import W, Fault, SimCrash, Violation

import ticdat
from ticdat import PanDatFactory, TicDatFactory


def rand_faults(rng, n, kinds, cls=("any",), sticky=(1,)):
    rtn = []
    for _ in range(n):
        rtn.append({"frac": round(rng.random(), 4), "kind": rng.choice(list(kinds)), "cls": rng.choice(list(cls)),
                    "sticky": rng.choice(list(sticky))})
    return rtn


def count_steps(fn, what):
    """the fault-free execution: must succeed; returns (value, number of I/O steps)"""
    n0 = W.nstep
    v = must(what, fn)
    return v, W.nstep - n0


def raw_sqlite(path):
    """{table: multiset of rows} read with SQLite directly, or None if the file is not there"""
    if not os.path.exists(path):
        return None
    con = sqlite3.connect(path)
    try:
        names = [r[0] for r in con.execute("select name from sqlite_master where type='table'")]
        return {n: sorted((tuple(r) for r in con.execute("select * from [%s]" % n)), key=repr) for n in names}
    finally:
        con.close()


def drop_empty(rows):
    return {t: r for t, r in rows.items() if r}


def file_digest(root):
    """every file below root with its content (links and odd things excluded)"""
    rtn = {}
    for d, dirs, files in os.walk(root):
        for n in sorted(dirs):
            rtn[os.path.relpath(os.path.join(d, n), root) + "/"] = None
        for n in sorted(files):
            p = os.path.join(d, n)
            with world.real_open(p, "rb") as f:
                rtn[os.path.relpath(p, root)] = f.read()
    return rtn


def copy_any(a, b):
    if os.path.isdir(a):
        shutil.copytree(a, b)
    elif os.path.exists(a):
        shutil.copyfile(a, b)


def tdf_of(schema):
    return gen.build_factory(schema, TicDatFactory)


def pdf_of(schema):
    return gen.build_factory(schema, PanDatFactory)


def tic_rows(dat, schema):
    return gen.norm(gen.rows_of_dat(dat, schema), schema)


def pan_rows(dat, schema):
    return gen.norm(gen.rows_of_pan(dat, schema), schema)


def want_rows(schema, data):
    return gen.norm(gen.rows_of_data(schema, data), schema)


def steps_since(n0):
    """the kinds of the injectable steps recorded since"""
    return [e[0] for e in W.events[n0:] if "." in e[0] and e[0] != "sqlite.unlock"]
