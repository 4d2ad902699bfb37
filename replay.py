"""Search for a concrete failing history against the real code (filled in per property)."""


def search(pid, rep):
    return None
