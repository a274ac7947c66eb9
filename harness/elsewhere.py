"""elsewhere.py in out: records scenarios in a process (and with a hash seed) of its own."""
import pickle
import sys

if __name__ == '__main__':
    sys.argv[1:], files = [], sys.argv[1:]
    import check
    with open(files[0], 'rb') as f:
        scs = pickle.load(f)
    res = check.record_all(scs, limit=400)
    with open(files[1], 'wb') as f:
        pickle.dump(res, f)
