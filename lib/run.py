import importlib, os, signal, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'checks'))
sys.dont_write_bytecode = True
import core, state


class OutOfTime(Exception): pass


def late(*a): raise OutOfTime('time limit')


def main():
    signal.signal(signal.SIGALRM, late)
    tier = os.environ.get('VERIF_TIER', 'quick')
    ids = [a for a in sys.argv[1:] if a not in ('quick', 'thorough')]
    for a in sys.argv[1:]:
        if a in ('quick', 'thorough'): tier = a
    if tier == 'thorough':
        # larger conditions and normal forms are kept instead of being given up
        import engine
        engine.CAP *= 8
    ctx = core.Ctx()
    rc = 0
    for pid in ids:
        m = importlib.import_module(pid)
        core.LEVELS[pid] = getattr(m, 'LEVEL', 'other')
        rep = core.Report(pid, tier)
        try:
            signal.alarm(400 if tier == 'quick' else 800)
            m.run(ctx, rep)
            state.hidden(ctx, rep, pid)
        except Exception as e:
            # a form of the program the analysis cannot cope with: nothing is decided, and this is said
            if os.environ.get('DEBUG'): traceback.print_exc()
            tb = traceback.extract_tb(e.__traceback__)[-1]
            rep.unsure('analysis', '-', 'the analysis gave up: %s: %s (%s:%d)' % (type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno))
        finally: signal.alarm(0)
        rc |= rep.finish(ctx)
    sys.exit(rc)


main()
