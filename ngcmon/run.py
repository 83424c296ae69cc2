import os
import sys
import traceback


def main():
    args = sys.argv[1:]
    only = n = None
    if "--case" in args:
        i = args.index("--case")
        only = int(args[i + 1])
        del args[i:i + 2]
    if "--n" in args:
        i = args.index("--n")
        n = int(args[i + 1])
        del args[i:i + 2]
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")
    real = os.dup(1)
    # imports of the code under test may print
    sys.stdout = open(os.devnull, "w")
    from ngcmon import core
    import neural_graph_composer
    if not os.path.realpath(neural_graph_composer.__file__).startswith(os.path.realpath(core.REPO)):
        raise SystemExit("neural_graph_composer imported from %s" % neural_graph_composer.__file__)
    import neural_graph_composer.midi_dataset  # noqa: F401  (pulls in every part)
    import neural_graph_composer.transforms  # noqa: F401
    import librosa
    librosa.midi_to_note(60)
    librosa.note_to_midi("C4")
    sys.stdout = os.fdopen(real, "w")
    rc = core.run_property(prop, tier, seed, only_case=only, n_override=n)
    sys.stdout.flush()
    return rc


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    os._exit(rc)
