from . import client


@client
def write(x, calls, legal):
    """any legal sequence of calls"""
    for op, name, text in calls:
        legal()
        if op == 0:
            x.element(name)
        elif op == 1:
            x.set(name, text)
        elif op == 2:
            x.text(text)
        elif op == 3:
            x.close()
        else:
            x.close(name)
