import contextlib
import signal


def bad_bare(f):
    try:
        f()
    except:  # noqa
        pass


def bad_base(f):
    try:
        f()
    except BaseException as e:
        if str(e):
            raise
        return None


def bad_convert(f):
    try:
        f()
    except BaseException:
        raise RuntimeError("x")


def bad_finally(f):
    try:
        f()
    finally:
        return 1


def bad_suppress(f):
    with contextlib.suppress(BaseException):
        f()


def good_cleanup(f, h):
    try:
        f()
    except BaseException:
        if h:
            h.close()
        raise


def good_named(f):
    try:
        f()
    except KeyboardInterrupt as e:
        f.stop()
        raise e
    except Exception:
        pass


def good_loop_in_finally(f):
    try:
        f()
    finally:
        for x in f:
            if x:
                break
ERRS = (ValueError, KeyboardInterrupt)
OK = (ValueError, TypeError)
class K:
    E = BaseException
    def bad(self):
        pass
def bad_tuple():
    try:
        f()
    except (*ERRS, KeyError):
        pass
def bad_local():
    errs = (ValueError,)
    errs += (KeyboardInterrupt,)
    try:
        f()
    except errs:
        pass
def bad_local2():
    errs = BaseException
    try:
        f()
    except errs:
        return None
def bad_cls(self):
    try:
        f()
    except K.E:
        return None
def bad_conv():
    try:
        f()
    except BaseException as e:
        raise ValueError("x") from e
def bad_exit():
    class C:
        def __enter__(self):
            return self
        def __exit__(self, t, v, tb):
            return t is not None
def bad_exit2():
    class C:
        def __exit__(self, t, v, tb):
            self.f.close()
            return True
def bad_suppress_names():
    with contextlib.suppress(*ERRS):
        f()
def bad_sig():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
def bad_fin():
    try:
        f()
    finally:
        raise ValueError
def bad_fin2():
    for i in x:
        try:
            f()
        finally:
            continue
def bad_cond():
    try:
        f()
    except BaseException as e:
        if isinstance(e, MemoryError):
            raise
        log()
def bad_ctx():
    @contextlib.contextmanager
    def c():
        try:
            yield
        except BaseException:
            log()
def bad_exitraise():
    import sys
    try:
        f()
    except KeyboardInterrupt:
        sys.exit(1)
def bad_wrongvar():
    try:
        f()
    except BaseException as e:
        try:
            g()
        except Exception as e2:
            raise e2
def bad_loop():
    while True:
        try:
            return f()
        except BaseException:
            n = n + 1
            if n > 3:
                raise
def good_helper():
    try:
        f()
    except BaseException as e:
        _fail(e)
def _fail(e):
    h.close()
    raise e
def good_helper2():
    try:
        f()
    except BaseException:
        _fail2()
def _fail2():
    h.close()
    raise
def good_exc():
    try:
        f()
    except OK:
        pass
def good_name():
    try:
        f()
    except BaseException as e:
        h.close()
        raise e
def good_order():
    try:
        f()
    except (KeyboardInterrupt, SystemExit):
        raise
    except:
        log()
def good_if():
    try:
        f()
    except BaseException:
        if h:
            h.close()
        raise
def good_exit():
    class C:
        def __exit__(self, t, v, tb):
            self.f.close()
            return False
def good_exit2():
    class C:
        def __exit__(self, *a):
            return self.f.__exit__(*a)
def good_fin():
    try:
        f()
    finally:
        for i in x:
            if i:
                break
