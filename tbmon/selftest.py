"""setup_cmd: nothing to build; shows that the interpreter, the library, SQLite and PostgreSQL are usable here."""

import os
import sys

REPO = os.environ.get("TBMON_REPO", "/repo")
sys.path.insert(0, REPO)


def main():
    import django
    import treebeard

    from . import pg

    c = pg.start_cluster()
    try:
        c.sql("postgres", "CREATE DATABASE x")
        c.sql("x", "CREATE EXTENSION ltree")
    finally:
        c.stop()
    print(f"tbmon: django {django.__version__}, treebeard from {os.path.dirname(treebeard.__file__)}, PostgreSQL works")


main()
