import importlib, os, sys, traceback


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from . import common
    sys.path.insert(0, common.REPO)
    ctx = common.Ctx(pid, tier, seed)
    import atexit, shutil
    atexit.register(lambda: shutil.rmtree(ctx.scratch, ignore_errors=True))
    import lingam
    if not os.path.realpath(lingam.__file__).startswith(os.path.realpath(common.REPO) + os.sep):
        print("lingam is not imported from", common.REPO)
        sys.exit(3)
    mod = importlib.import_module("harness." + pid.lower())
    try:
        mod.check(ctx)
    except common.MachineryError as e:
        if not ctx.violations:
            print("MACHINERY ERROR:", e)
            sys.exit(3)
        print("note: machinery stopped early after a violation:", str(e)[:300])
    except (OSError, MemoryError, ImportError):
        traceback.print_exc()
        if not ctx.violations:
            sys.exit(3)
    except Exception as e:
        # the code under test raised, or answered in a form no behaviour of the specification has
        traceback.print_exc()
        ctx.fail("answer-outside-the-specification: %r" % e, {"traceback": traceback.format_exc()[-3000:]})
    sys.stdout.flush()
    sys.exit(ctx.finish(getattr(mod, "LEVEL", "model_checking")))


if __name__ == "__main__":
    main()
