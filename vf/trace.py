"""Event log that generated modules and scripts write to."""
events = []


def hit(*ev):
    events.append(list(ev))


def reset():
    events.clear()
