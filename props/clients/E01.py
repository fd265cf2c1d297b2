from . import client


@client
def items(lists, ops):
    """any number of calls of item() on any of the lists"""
    for op in ops:
        if op == 0:
            lists[0].item()
        elif op == 1:
            lists[1].item()
        else:
            lists[2].item()
