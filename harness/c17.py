"""C17 availability analysis (part "acc" of TV_Availability)."""
from rdv import main
from avail import go

if __name__ == "__main__":
    main("C17", lambda c: go(c, "acc"))
