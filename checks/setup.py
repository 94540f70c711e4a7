"""Nothing to build: checks that the pieces are there."""
from mc import world, net  # noqa: F401

print("ok")
