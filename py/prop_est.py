"""What each actuarial property explores: seeded recorded sessions over estimators, judged by TLC
against Est.tla."""
import drive_est as D
from harness import prop


@prop("C12")
def c12(c):
    c.drive("development", c.n(330), D.c12)


@prop("C13")
def c13(c):
    c.drive("patterns", c.n(240), D.c13)


@prop("C14")
def c14(c):
    c.drive("chainladder", c.n(200), D.c14)


@prop("C15")
def c15(c):
    c.drive("expected", c.n(200), D.c15)


@prop("C16")
def c16(c):
    c.drive("capecod", c.n(200), D.c16)


@prop("C17")
def c17(c):
    c.drive("tails", c.n(220), D.c17)


@prop("C18")
def c18(c):
    c.life("dev", c.n(300), "dev", 5 if c.tier == "quick" else 6)
    c.life("method", c.n(300), "method", 5)


@prop("C21")
def c21(c):
    c.drive("mack", c.n(150), D.c21)
