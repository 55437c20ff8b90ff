"""
Runs command lines. Started with the environment that the command should
see (ALINT_IGNORE is looked at during import); every command line gets a
child process of its own, with real file descriptors.

    runner.py REPO < pickle of [argv, ...] > pickle of [(rc, out, err), ...]
"""
import os
import pickle
import sys
import tempfile
import traceback


def child(argv, out, err, keep):
    os.dup2(out.fileno(), 1)
    os.dup2(err.fileno(), 2)
    sys.stdout = os.fdopen(1, 'w', encoding='utf-8', closefd=False)
    sys.stderr = os.fdopen(2, 'w', encoding='utf-8', closefd=False,
                           errors='backslashreplace')
    sys.argv = ['asterisklint'] + list(argv)
    code = 70
    try:
        # Like the script does.
        from asterisklint.main import main
        sys.exit(main(list(argv), os.environ))
    except SystemExit as e:
        code = e.code
        if code is None:
            code = 0
        elif not isinstance(code, int):
            sys.stderr.write('%s\n' % (code,))
            code = 1
    except BaseException:
        traceback.print_exc()
        code = 1
    finally:
        for stream in (sys.stdout, sys.stderr):
            try:
                stream.flush()
            except Exception:
                code = 71
        os._exit(code & 0xff)


def run(argv):
    with tempfile.TemporaryFile() as out, tempfile.TemporaryFile() as err:
        pid = os.fork()
        if pid == 0:
            child(argv, out, err, None)
        _, status = os.waitpid(pid, 0)
        if os.WIFEXITED(status):
            rc = os.WEXITSTATUS(status)
        else:
            rc = -os.WTERMSIG(status)
        ret = []
        for f in (out, err):
            f.seek(0)
            ret.append(f.read())
        return (rc,) + tuple(ret)


def main():
    sys.path.insert(0, sys.argv[1])
    sys.dont_write_bytecode = True
    jobs = pickle.load(sys.stdin.buffer)
    if jobs['preload']:
        from asterisklint import main as _  # noqa
        from asterisklint import FileDialplanParser as _  # noqa
        from asterisklint.application import AppLoader
        from asterisklint.varfun import FuncLoader
        AppLoader()
        FuncLoader()
    ret = [run(argv) for argv in jobs['argvs']]
    sys.stdout.buffer.write(pickle.dumps(ret, 4))


if __name__ == '__main__':
    main()
