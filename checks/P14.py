"""P14: DEL, RD and MD change exactly what they were told, and never leave the tree through a link."""
from vt import fscase
from vt.check import Check, main


def fn():
    c = Check("P14", "exploration", "distinct: hash of the command, its directory and the tree; nontrivial: the command changes the tree",
              ["cases whose outcome depends on the order in which a directory is read are outside the domain"])
    if c.want("tree"):
        fscase.drive(c, [("plain", c.n(1100, 25000)), ("asan", c.n(150, 3000))], ["del", "del", "del", "rd", "rd", "md"], 8)
    c.finish(100)


main(fn)
