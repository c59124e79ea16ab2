"""What the properties of adjustments explore: trend, on-level factors, Berquist-Sherman, judged by
TLC against Adj.tla."""
import drive_adj as D
from harness import prop


@prop("C25")
def c25(c):
    c.drive("berquist", c.n(200), D.c25)


@prop("C26")
def c26(c):
    c.drive("trend", c.n(900), D.c26)


@prop("C27")
def c27(c):
    c.drive("onlevel", c.n(900), D.c27)
