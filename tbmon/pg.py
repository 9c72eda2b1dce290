"""A private, throw-away PostgreSQL cluster on a unix socket in a scratch directory."""

import os
import pwd
import shutil
import subprocess
import tempfile
import time

BIN = "/usr/lib/postgresql/16/bin"


class Cluster:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="tbmon-pg.", dir="/tmp")
        pw = pwd.getpwnam("postgres")
        os.chown(self.dir, pw.pw_uid, pw.pw_gid)
        os.chmod(self.dir, 0o700)
        self.data = os.path.join(self.dir, "data")
        self.started = False

    def _run(self, *argv, timeout=120):
        return subprocess.run(
            ["setpriv", "--reuid=postgres", "--regid=postgres", "--clear-groups", "env", f"HOME={self.dir}", *argv],
            cwd=self.dir,
            stdin=subprocess.DEVNULL,
            stdout=subprocess.DEVNULL,
            stderr=subprocess.DEVNULL,
            timeout=timeout,
        ).returncode

    def start(self):
        if self._run(
            f"{BIN}/initdb", "-D", self.data, "-U", "tbmon", "--auth=trust", "-E", "UTF8",
            "--locale=C.UTF-8", "--no-sync",
        ):
            raise RuntimeError("initdb failed")
        opts = (
            f"-k {self.dir} -c listen_addresses='' -c fsync=off -c full_page_writes=off "
            "-c synchronous_commit=off -c max_connections=200 -c shared_buffers=128MB -c deadlock_timeout=200ms"
        )
        if self._run(f"{BIN}/pg_ctl", "-w", "-t", "120", "-D", self.data, "-l", f"{self.dir}/log", "-o", opts, "start"):
            raise RuntimeError("pg_ctl start failed")
        self.started = True

    def sql(self, db, statement):
        import psycopg

        with psycopg.connect(host=self.dir, user="tbmon", dbname=db, autocommit=True) as conn:
            conn.execute(statement)

    def stop(self):
        try:
            if self.started:
                self._run(f"{BIN}/pg_ctl", "-w", "-m", "immediate", "-D", self.data, "stop")
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)


def start_cluster():
    last = None
    for attempt in range(3):
        c = Cluster()
        try:
            c.start()
            return c
        except Exception as exc:  # a slow or busy machine: try again
            last = exc
            c.stop()
            time.sleep(1 + attempt)
    raise RuntimeError(f"PostgreSQL did not start: {last}")
