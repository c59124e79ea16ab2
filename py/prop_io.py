"""What the properties at the boundary of the library explore: tables in, tables out, round trips,
judged by TLC against Io.tla."""
import drive_io as D
from harness import prop


@prop("C01")
def c01(c):
    c.drive("construct", c.n(2600), D.c01)


@prop("C10")
def c10(c):
    c.drive("trips", c.n(440), D.c10)


@prop("C29")
def c29(c):
    c.drive("tables", c.n(1400), D.c29)
