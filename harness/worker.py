"""Record the sessions of some cases of a check."""
import importlib
import json
import os
import sys
import threading
import time
import warnings

warnings.filterwarnings("ignore")


LIMIT = 300  # seconds, for a session that takes some seconds


class Watchdog:
    """Ends the recording when a session does not come to an end; the sessions after it stay empty."""

    def __init__(self, cases, write):
        self.cases, self.write, self.at = cases, write, None
        threading.Thread(target=self.watch, daemon=True).start()

    def next(self, k):
        self.at = (k, time.monotonic())

    def watch(self):
        while True:
            time.sleep(2)
            at = self.at
            if at and time.monotonic() - at[1] > LIMIT:
                import faulthandler

                faulthandler.dump_traceback(all_threads=True)
                self.write({at[0]: [dict(op="expect", legal=True, out="error", err="Stuck", msg=f"no end within {LIMIT} s")]})
                os._exit(0)


def main():
    spec = json.load(open(sys.argv[1]))
    from harness import lib

    mod = importlib.import_module(f"harness.checks.{spec['prop'].lower()}")
    sessions = {}

    def write(more, tables=None):
        done = {k: [] for k, _ in spec["cases"]} | sessions | more
        with open(sys.argv[2], "w") as f:
            json.dump(dict(sessions=sorted(done.items()), tables=tables), f)

    dog = Watchdog(spec["cases"], write)
    for k, case in spec["cases"]:
        if lib.stuck:  # a thread that waits for ever may hold up everything else
            break
        dog.next(k)
        try:
            events = mod.run(case)
        except Exception as e:  # a use that the check takes for granted has failed
            import traceback

            traceback.print_exc()
            events = [lib.err_event(e)]
        sessions[k] = events
    dog.at = None
    try:
        tables = lib.tables() if spec["tables"] else None
    except Exception as e:
        import traceback

        traceback.print_exc()
        tables = {}
    write({}, tables)
    sys.stdout.flush()
    if lib.stuck:
        os._exit(0)


if __name__ == "__main__":
    main()
