"""
Started with the shim preloaded.  Each line on standard input asks for one run of the search script in a
forked child that is disturbed at the given call; the answer is how the child ended.
"""
import ctypes
import json
import os
import runpy
import signal
import sys
import time
import traceback


def child(job, repo):
    log = os.open(job['log'], os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
    os.dup2(log, 1)
    os.dup2(log, 2)
    os.close(log)
    os.chdir(job['cwd'])
    sys.stdout = open(1, 'w', encoding='utf-8', buffering=1, closefd=False)
    sys.stderr = open(2, 'w', encoding='utf-8', buffering=1, closefd=False)
    signal.signal(signal.SIGINT, signal.default_int_handler)
    signal.alarm(job.get('limit', 60))
    sys.argv = [os.path.join(repo, 'search.py'), *job['args']]
    lib = ctypes.CDLL(None)
    lib.crash_arm(ctypes.c_long(job['at']), ctypes.c_int(job['how']))
    code = 0
    try:
        runpy.run_path(sys.argv[0], run_name='__main__')
    except SystemExit as e:
        code = 3
    except KeyboardInterrupt:
        code = 4
    except BaseException:
        traceback.print_exc()
        code = 5
    finally:
        # The interpreter ends here as it would by itself.
        sys.stdout.flush()
    lib.crash_count.restype = ctypes.c_long
    n = lib.crash_count()
    lib.crash_disarm()
    with open(job['log'] + '.count', 'w') as f:
        f.write(str(n))
    os._exit(code)


def main():
    repo = sys.argv[1]
    sys.path.insert(0, repo)
    time.sleep = lambda s: None
    import sqlite3
    import peyl
    out = os.dup(1)
    os.dup2(2, 1)
    for n in (3, 4):
        peyl.BraidGroup(n).count_all_of_garside_length(2)
    for line in sys.stdin:
        job = json.loads(line)
        pid = os.fork()
        if pid == 0:
            child(job, repo)
        _, status = os.waitpid(pid, 0)
        answer = {'signal': os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0, 'code': os.WEXITSTATUS(status) if os.WIFEXITED(status) else None}
        os.write(out, (json.dumps(answer) + '\n').encode())


main()
