"""A terminal with a scripted user, in the place of the curses module."""
import sys
import types


class Exhausted(Exception):
    pass


class Terminal:
    """keys: list of (tag, key); a key is a character for getch or a line for getstr."""

    def __init__(self, keys, on_tag=None):
        self.keys = list(keys)
        self.on_tag = on_tag or (lambda tag: None)
        self.page = []
        self.pages = []          # (tag of the key given, strings on the screen when it was asked for)
        self.open = False
        self.tag = None

    def take(self, kind):
        if not self.keys:
            raise Exhausted('the menu asks for another %s' % kind)
        tag, k, want = self.keys.pop(0)
        if want != kind:
            raise Exhausted('the menu asks for a %s where a %s (%r) was expected' % (kind, want, k))
        self.pages.append((tag, list(self.page)))
        if tag != self.tag:
            self.tag = tag
            self.on_tag(tag)
        return k


NOW = None


class Screen:
    def getch(self, *a):
        return ord(NOW.take('key'))

    def getkey(self, *a):
        return NOW.take('key')

    def getstr(self, *a):
        return NOW.take('line').encode()

    def addstr(self, *a):
        s = [x for x in a if isinstance(x, str)]
        at = [x for x in a if not isinstance(x, str)][:2]
        NOW.page.append((tuple(at), s[0]))

    def clear(self):
        NOW.page = []

    erase = clear

    def getmaxyx(self):
        return 40, 120

    def __getattr__(self, name):
        return lambda *a, **k: None


class _Curses(types.ModuleType):
    error = type('error', (Exception,), {})

    def initscr(self):
        NOW.open = True
        return Screen()

    def endwin(self):
        NOW.open = False

    def isendwin(self):
        return not NOW.open

    def wrapper(self, f, *a, **k):
        try:
            return f(self.initscr(), *a, **k)
        finally:
            self.endwin()

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if name.isupper():
            return 0
        return lambda *a, **k: None


def install():
    """The menus of dynaphopy talk to a scripted terminal from now on."""
    import time
    sys.modules['curses'] = _Curses('curses')
    real = time.sleep
    time.sleep = lambda s=0: None
    try:
        sys.modules.pop('dynaphopy.interface.interactive_ui', None)
        import dynaphopy.interface.interactive_ui as ui
    finally:
        time.sleep = real
    if hasattr(ui, 'sleep'):
        ui.sleep = lambda s=0: None
    if hasattr(ui, 'time') and hasattr(ui.time, 'sleep'):
        ui.time = types.SimpleNamespace(sleep=lambda s=0: None)
    return ui


def session(keys, on_tag=None):
    global NOW
    NOW = Terminal(keys, on_tag)
    return NOW
