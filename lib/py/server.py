# Runs a script as the main program, once per request: [script, cwd, argument...] -> [exit code, stdout, stderr].
import contextlib, io, os, runpy, struct, sys, traceback
sys.dont_write_bytecode = True
inp, out = sys.stdin.buffer, os.fdopen(os.dup(1), 'wb')
def read(n):
    b = b''
    while len(b) < n:
        c = inp.read(n - len(b))
        if not c: sys.exit(0)
        b += c
    return b
while True:
    n, = struct.unpack('<I', read(4))
    f = [read(struct.unpack('<I', read(4))[0]) for _ in range(n)]
    script, cwd, *args = [x.decode('utf-8', 'surrogateescape') for x in f]
    o, e, code = io.StringIO(), io.StringIO(), 0
    sys.argv = [script, *args]
    os.chdir(cwd)
    with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
        try:
            runpy.run_path(script, run_name='__main__')
        except SystemExit as x:
            code = 0 if x.code is None else x.code if isinstance(x.code, int) else 1
        except BaseException:
            traceback.print_exc()
            code = 1
    r = [str(code).encode(), o.getvalue().encode('utf-8', 'surrogateescape'), e.getvalue().encode('utf-8', 'surrogateescape')]
    out.write(struct.pack('<I', len(r)) + b''.join(struct.pack('<I', len(x)) + x for x in r))
    out.flush()
