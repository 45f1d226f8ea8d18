"""C15 availability analysis (part "sub" of TV_Availability)."""
from rdv import main
from avail import go

if __name__ == "__main__":
    main("C15", lambda c: go(c, "sub"))
