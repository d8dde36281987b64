def summarise(E, snap, header, st):
    return None
