"""Throw-away database servers in a scratch directory."""
import ctypes
import os
import shutil
import signal
import subprocess
import tempfile
import time

PGBIN = '/usr/lib/postgresql/16/bin/'


def die_with_parent():
    ctypes.CDLL(None).prctl(1, signal.SIGTERM)


class Server(object):
    def __init__(self, db):
        self.db = db
        self.host = ''
        self.dir = None
        self.proc = None

    def start(self):
        if self.db == 'sqlite':
            return
        self.dir = tempfile.mkdtemp(prefix='vreplay-')
        os.chmod(self.dir, 0o755)
        getattr(self, 'start_' + self.db)()

    def start_postgres(self):
        d = os.path.join(self.dir, 'pg')
        os.mkdir(d)
        shutil.chown(d, 'postgres', 'postgres')
        self.pre = ['env', 'HOME=' + d, 'setpriv', '--reuid=postgres', '--regid=postgres', '--clear-groups']
        run = dict(stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, check=True, cwd=d)
        subprocess.run(self.pre + [PGBIN + 'initdb', '-D', d + '/data', '-A', 'trust', '-U', 'postgres', '-E', 'UTF8',
                                   '--locale=C.UTF-8', '-N'], **run)
        subprocess.run(self.pre + [PGBIN + 'pg_ctl', '-D', d + '/data', '-w', '-t', '120', '-l', d + '/log', '-o',
                                   '-c listen_addresses= -c unix_socket_directories=%s -c fsync=off -c full_page_writes=off' % d,
                                   'start'], **run)
        self.host = d
        for n in ('vreplay', 'vreplay2'):
            subprocess.run(self.pre + [PGBIN + 'createdb', '-h', d, '-U', 'postgres', n], **run)

    def start_mysql(self):
        d = os.path.join(self.dir, 'my')
        os.mkdir(d)
        shutil.chown(d, 'mysql', 'mysql')
        q = dict(stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        subprocess.run(['mariadb-install-db', '--no-defaults', '--user=mysql', '--datadir=' + d + '/data',
                        '--auth-root-authentication-method=normal', '--skip-test-db'], check=True, **q)
        sock = d + '/sock'
        self.proc = subprocess.Popen(['/usr/sbin/mariadbd', '--no-defaults', '--user=mysql', '--datadir=' + d + '/data', '--socket=' + sock,
                                      '--pid-file=' + d + '/pid', '--skip-networking', '--character-set-server=utf8mb4',
                                      '--innodb-flush-log-at-trx-commit=0', '--innodb-buffer-pool-size=64M'], preexec_fn=die_with_parent, **q)
        for i in range(240):
            if subprocess.run(['mariadb-admin', '--no-defaults', '-uroot', '-S', sock, 'ping'], **q).returncode == 0:
                break
            time.sleep(0.25)
        self.host = sock
        for n in ('vreplay', 'vreplay2'):
            subprocess.run(['mariadb', '--no-defaults', '-uroot', '-S', sock, '-e', 'CREATE DATABASE ' + n], check=True, **q)

    def stop(self):
        if self.dir is None:
            return
        try:
            if self.db == 'postgres':
                subprocess.run(self.pre + [PGBIN + 'pg_ctl', '-D', self.dir + '/pg/data', '-m', 'immediate', '-w', 'stop'],
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=self.dir)
            elif self.proc is not None:
                self.proc.terminate()
                try:
                    self.proc.wait(30)
                except subprocess.TimeoutExpired:
                    self.proc.kill()
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)
            self.dir = None
