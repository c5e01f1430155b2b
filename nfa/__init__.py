"""Static analysis of norfair: abstract interpretation over value numbers."""
