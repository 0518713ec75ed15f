"""Helpers to run the code under test: time limits, and conversion of its exceptions into trace events."""
import os
import signal
import traceback


REPO = os.environ.get('VERIF_REPO', '/repo') + '/'


class Hang(BaseException):
    pass


class limit:
    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def handler(signum, frame):
            raise Hang('time limit of %s s exceeded' % self.seconds)
        self.old = signal.signal(signal.SIGALRM, handler)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


def from_repo(e):
    return any(f.filename.startswith(REPO) for f in traceback.extract_tb(e.__traceback__))


def attempt(fn, seconds=20, reraise_ours=True):
    """Returns (value, None) or (None, description of the exception)."""
    try:
        with limit(seconds):
            return fn(), None
    except Hang as e:
        return None, 'hang: %s' % e
    except Exception as e:
        if reraise_ours and not from_repo(e):
            raise
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return None, '%s: %s @%s:%d' % (type(e).__name__, str(e)[:200], tb.filename, tb.lineno)


class guarded:
    """Context of a driver: exceptions and hangs of the code under test become an 'exc' event ending the trace."""

    def __init__(self, ev, seconds, ours=True):
        self.ev, self.lim, self.ours = ev, limit(seconds), ours

    def __enter__(self):
        self.lim.__enter__()
        return self

    def __exit__(self, t, e, tb):
        self.lim.__exit__()
        if t is None:
            return False
        if t is Hang or (issubclass(t, Exception) and (self.ours or from_repo(e))):
            fr = traceback.extract_tb(tb)
            at = [f for f in fr if f.filename.startswith(REPO)] or fr
            self.ev.append({'op': 'exc', 'what': '%s: %s @%s:%d' % (t.__name__, str(e)[:200], at[-1].filename, at[-1].lineno)})
            return True
        return False
