"""Helpers of the demonstrations: sessions of fbuild in forked children inside a scratch directory."""
import os, shutil, signal, sys, tempfile, time, traceback
sys.path.insert(0, os.path.join(os.getcwd(), 'lib'))
sys.dont_write_bytecode = True
SCRATCH = tempfile.mkdtemp(prefix='demo-')
os.chdir(SCRATCH)


def write(name, text, mtime=None):
    with open(name, 'w') as f:
        f.write(text)
    if mtime is not None:
        os.utime(name, (mtime, mtime))


def ctx_of(engine='pickle', *opts):
    import fbuild, fbuild.context, fbuild.db
    ctx = fbuild.context.make_default_context(['--database-engine=' + engine, '--nocolor', '-j', '1',
                                               '--buildroot=' + os.path.join(SCRATCH, 'build')] + list(opts))
    ctx.create_buildroot()
    ctx.load_configuration()
    return ctx


def end(ctx):
    ctx.save_configuration()
    ctx.db.shutdown()
    ctx.scheduler.shutdown()


def module(name, text):
    d = os.path.join(SCRATCH, 'mods')
    os.makedirs(d, exist_ok=True)
    write(os.path.join(d, name + '.py'), text)
    if d not in sys.path:
        sys.path.insert(0, d)
    return __import__(name)


def session(fn, timeout=60):
    """Run fn() in a forked child; exits the demonstration when it fails."""
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.alarm(timeout)
            fn()
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    if status:
        print('DEMO FAILED: status', status)
        done(1)


def done(code=0):
    os.chdir('/')
    shutil.rmtree(SCRATCH, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def run(fn):
    """The whole demonstration; assertions failing mean the property is broken."""
    try:
        fn()
    except BaseException:
        traceback.print_exc()
        done(1)
    done(0)
