"""Model of the standard logging objects, and what the library's logger looks like after it was configured."""
LOGGERS = {}
FILES = []


class Formatter:
    def __init__(self, fmt=None, datefmt=None, style="%", validate=True, defaults=None):
        self.fmt = fmt
        self.datefmt = datefmt
        self.style = style


class Filterer:
    def __init__(self):
        self.filters = []

    def addFilter(self, f):
        if f not in self.filters:
            self.filters.append(f)

    def removeFilter(self, f):
        if f in self.filters:
            self.filters.remove(f)


class Handler(Filterer):
    what = "handler"
    filename = None
    mode = None

    def __init__(self, level=0):
        Filterer.__init__(self)
        self.level = level
        self.formatter = None
        self.closed = False

    def setLevel(self, level):
        self.level = level

    def setFormatter(self, fmt):
        self.formatter = fmt

    def flush(self):
        pass

    def acquire(self):
        pass

    def release(self):
        pass

    def close(self):
        self.closed = True


class NullHandler(Handler):
    what = "null"


class StreamHandler(Handler):
    what = "stream"

    def __init__(self, stream=None):
        Handler.__init__(self)
        self.stream = stream

    def setStream(self, stream):
        self.stream = stream


class FileHandler(StreamHandler):
    what = "file"

    def __init__(self, filename, mode="a", encoding=None, delay=False, errors=None):
        StreamHandler.__init__(self)
        self.filename = filename
        self.mode = mode
        FILES.append(self)


class RotatingFileHandler(FileHandler):
    def __init__(self, filename, mode="a", maxBytes=0, backupCount=0, encoding=None, delay=False, errors=None):
        FileHandler.__init__(self, filename, mode)


class Logger(Filterer):
    def __init__(self, name, level=0):
        Filterer.__init__(self)
        self.name = name
        self.level = level
        self.handlers = []
        self.propagate = True
        self.disabled = False

    def setLevel(self, level):
        self.level = level

    def addHandler(self, hdlr):
        if hdlr not in self.handlers:
            self.handlers.append(hdlr)

    def removeHandler(self, hdlr):
        if hdlr in self.handlers:
            self.handlers.remove(hdlr)

    def hasHandlers(self):
        return len(self.handlers) > 0

    def isEnabledFor(self, level):
        return level >= self.level

    def getEffectiveLevel(self):
        return self.level

    def debug(self, msg, *args, **kwargs):
        pass

    def info(self, msg, *args, **kwargs):
        pass

    def warning(self, msg, *args, **kwargs):
        pass

    def error(self, msg, *args, **kwargs):
        pass

    def critical(self, msg, *args, **kwargs):
        pass

    def exception(self, msg, *args, **kwargs):
        pass

    def log(self, level, msg, *args, **kwargs):
        pass


def getLogger(name=None):
    key = name if name else "root"
    if key not in LOGGERS:
        LOGGERS[key] = Logger(key, 30 if key == "root" else 0)
    return LOGGERS[key]


def described(h):
    f = h.formatter
    return (h.what, h.level, h.filename, h.mode, h.closed, len(h.filters), "default" if f is None else (f.fmt, f.datefmt, f.style))


def state(logger, before):
    """everything the configuration decides: the logger, its handlers, the open files and the handlers it had before"""
    return (logger.level, [described(h) for h in logger.handlers], [f.filename for f in FILES if not f.closed], [h.closed for h in before], logger.propagate, logger.disabled)


def other_loggers():
    return [(k, LOGGERS[k].level, len(LOGGERS[k].handlers)) for k in LOGGERS if k != "quantfinlib"]


def configured(before, fmt, verbosity=30, to_file=False, path="quantfinlib.log"):
    """what `state` must be after the call"""
    hs = [("stream", verbosity, None, None, False, 0, fmt)]
    files = []
    if to_file:
        hs.append(("file", verbosity, path, "a", False, 0, fmt))
        files.append(path)
    return (verbosity, hs, files, [True for h in before], True, False)
