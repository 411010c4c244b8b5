"""Run something in a forked child, so that nothing it leaves behind in the process matters."""

import os
import pickle
import traceback


class ChildError(Exception):
    """The forked child failed; carries its traceback."""


def in_child(fn, *args):
    """The result of fn(*args), computed in a forked child of this process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                data = pickle.dumps(("ok", fn(*args)))
            except BaseException as e:  # noqa: BLE001
                data = pickle.dumps(("error", type(e).__name__, traceback.format_exc()))
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:  # noqa: BLE001
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise ChildError("the child died")
    answer = pickle.loads(data)
    if answer[0] == "ok":
        return answer[1]
    raise ChildError("%s in a child\n%s" % answer[1:])
