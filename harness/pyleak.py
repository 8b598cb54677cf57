"""Repeat one kind of call of the Python module; print live heap blocks after every round. argv: kind rounds calls"""
import sys, ctypes, gc, json, warnings
warnings.simplefilter("ignore")
import crossprob
mt = ctypes.CDLL(None).mt_get
out = (ctypes.c_long * 4)()
kind, rounds, calls = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
n = 40
b = [0.4 * i / n for i in range(n)]
B = [0.6 + 0.4 * i / n for i in range(n)]
big_b = [0.5 * i / 300 for i in range(300)]
big_B = [min(1, 0.5 + i / 300) for i in range(300)]
V = crossprob.VectorDouble


class BadSeq:
    def __len__(self):
        return 5

    def __getitem__(self, i):
        if i == 3:
            raise ValueError("no")
        return 0.5


KINDS = {
    "ok_ks": lambda: crossprob.ecdf2(b, B, False),
    "ok_fft": lambda: crossprob.ecdf2(big_b, big_B, True),
    "ok_tuple": lambda: crossprob.ecdf2(tuple(b), tuple(B), False),
    "ok_new_b": lambda: crossprob.ecdf1_new_b(b),
    "ok_new_B": lambda: crossprob.ecdf1_new_B(B),
    "ok_mns_b": lambda: crossprob.ecdf1_mns2016_b(b),
    "ok_mns_B": lambda: crossprob.ecdf1_mns2016_B(B),
    "ok_vector": lambda: crossprob.ecdf2(V(b), V(B), False),
    "ok_vector1": lambda: crossprob.ecdf1_new_b(V(b)),
    "err_unsorted": lambda: crossprob.ecdf1_new_b(b[::-1]),
    "err_unsorted_B": lambda: crossprob.ecdf1_mns2016_B(B[::-1]),
    "err_range": lambda: crossprob.ecdf1_mns2016_b([2.0] * 5),
    "err_range_B": lambda: crossprob.ecdf1_new_B([-1.0] * 5),
    "err_nan": lambda: crossprob.ecdf2([float("nan")] * n, B, True),
    "err_length": lambda: crossprob.ecdf2(b[:-1], B, False),
    "err_length2": lambda: crossprob.ecdf2(b, B[:-1], True),
    "err_order2": lambda: crossprob.ecdf2(b, B[::-1], True),
    "type_str": lambda: crossprob.ecdf1_new_b("abc"),
    "type_elem": lambda: crossprob.ecdf1_new_b([0.1, "x"]),
    "type_second": lambda: crossprob.ecdf2(b, None, False),
    "type_second_elem": lambda: crossprob.ecdf2(b, [0.5, None], False),
    "type_reader": lambda: crossprob.ecdf1_new_b(BadSeq()),
    "type_reader2": lambda: crossprob.ecdf2(b, BadSeq(), False),
    "type_flag": lambda: crossprob.ecdf2(b, B, "no"),
    "type_flag2": lambda: crossprob.ecdf2(b, B, None),
    "type_count": lambda: crossprob.ecdf2(b, B),
    "type_none": lambda: crossprob.ecdf1_mns2016_B(None),
    "type_B": lambda: crossprob.ecdf1_new_B([None]),
    "type_mns_b": lambda: crossprob.ecdf1_mns2016_b({}),
}
f = KINDS[kind]
live, result = [], None
for r in range(rounds):
    for _ in range(calls):
        try:
            f()
            res = "value"
        except (RuntimeError, TypeError, ValueError, NotImplementedError, OverflowError) as e:
            res = type(e).__name__
    gc.collect()
    mt(out)
    live.append([out[0], out[1]])
print(json.dumps({"live": live, "result": res}))
