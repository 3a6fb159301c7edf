"""client function used to verify that a class follows the sequence protocol"""
def get_at(o, k): return o[k]
