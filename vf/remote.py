"""Another process, with another hash seed and other surroundings, running the jobs of a check module."""
import importlib
import json
import os
import random
import select
import subprocess
import sys
import time

from . import core


class Remote:
    """JOBS[name](rng) of a check module, computed elsewhere."""
    def __init__(self, module, hashseed='0', cwd='/', env=None, prelude=''):
        from vf.run import env_for
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=core.VERIF, PYTHONHASHSEED=str(hashseed), **(env or {}))
        cmd = [sys.executable, '-c', f'{prelude}\nfrom vf import remote; remote.serve({module!r})']
        self.process = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def call(self, name, seed, limit=200):
        self.process.stdin.write((json.dumps([name, seed]) + '\n').encode())
        self.process.stdin.flush()
        deadline = time.monotonic() + limit
        buffer = b''
        while not buffer.endswith(b'\n'):
            left = deadline - time.monotonic()
            if left <= 0 or not select.select([self.process.stdout], [], [], left)[0]:
                self.close()
                raise core.Inconclusive(f'job {name} gave no answer within {limit} s')
            chunk = os.read(self.process.stdout.fileno(), 1 << 16)
            if not chunk:
                self.close()
                raise core.Violation(f'the process running job {name} ended with {self.process.returncode}')
            buffer += chunk
        answer = json.loads(buffer)
        if 'error' in answer:
            raise core.Violation(f"in another process: {answer['error']}")
        return answer['value']

    def close(self):
        self.process.stdin.close()
        self.process.kill()
        self.process.wait()
        self.process.stdout.close()

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.close()


def serve(module):
    sys.path.insert(0, core.REPO)
    out = os.dup(1)
    os.dup2(2, 1)
    jobs = importlib.import_module(f'vf.checks.{module}').JOBS
    for line in sys.stdin:
        name, seed = json.loads(line)
        try:
            answer = {'value': json.loads(json.dumps(jobs[name](random.Random(seed))))}
        except Exception as e:
            answer = {'error': f'{type(e).__name__}: {e}'}
        text = (json.dumps(answer) + '\n').encode()
        while text:
            text = text[os.write(out, text):]
