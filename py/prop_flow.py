"""What the properties of composite estimators explore: pipelines, grid searches, voting, judged by
TLC against Flow.tla."""
import drive_flow as D
from harness import prop


@prop("C19")
def c19(c):
    c.drive("flow", c.n(130), D.c19)


@prop("C20")
def c20(c):
    c.drive("voting", c.n(240), D.c20)
