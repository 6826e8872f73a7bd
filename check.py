#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: runs one check against /repo."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from hb.core import main
if __name__ == "__main__":
    import threading
    threading.stack_size(512 * 1024 * 1024)
    r = []
    def go():
        try:
            r.append(main(sys.argv[1:]))
        except BaseException:
            import traceback
            traceback.print_exc()
            r.append(3)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(r[0] if r else 3)
