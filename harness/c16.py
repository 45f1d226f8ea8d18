"""C16 availability analysis (part "out" of TV_Availability)."""
from rdv import main
from avail import go

if __name__ == "__main__":
    main("C16", lambda c: go(c, "out"))
