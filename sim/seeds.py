import hashlib


def hash_seed(verif_seed, check_id, block):
    h = hashlib.sha256(("hs/%s/%s/%s" % (verif_seed, check_id, block)).encode()).digest()
    return int.from_bytes(h[:4], "big")
