"""Programs using the library in the most general way; they are executed symbolically like the library itself."""


def client(fn):
    fn.__module__ = "elsie.client"
    return fn
