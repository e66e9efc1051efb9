"""two failing packets, one report: run  python3 c16_two.py a.ivf;  drive t=3 d=2 f:a.ivf drain   (one "err", ts=3; with t=1 both packets 1 and 3 are reported)"""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from av1gen import *
TD = b"\x12\x00"
q = Seq(w=128, h=64)
k = frame(q, tiles=(1, 0), data=[bytes(200), b"x" * 5], n_bytes=1)
k = k[:-206] + b"\xff" + k[-205:]      # first tile longer than the packet
open(sys.argv[1], "wb").write(ivf([TD + q.obu() + k, TD + frame(q, seed=3), TD + frame(q, type=INTER, oh=1, size=(32, 16), seed=5), TD + frame(q, type=INTER, oh=1, seed=5)]))
